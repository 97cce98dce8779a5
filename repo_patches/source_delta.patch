From 14c2429af5a67851c208807bd2371e7e4c1eb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 01/29] fix: refuse to sign without the own nonce contribution

A sign request for a position for which no ephemeral secret parts had been
requested was signed with the parts of the other cosigners only. They know
that nonce, so the answer revealed the key share.
---
 signer/local_cosigner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 4ca652e..d813fd1 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -191,6 +191,11 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		return res, errors.New("no metadata at HRS")
 	}
 
+	// never sign without our own contribution to the nonce, the signature would reveal our key share
+	if len(meta.Peers[cosigner.key.ID-1].Share) == 0 {
+		return res, errors.New("own ephemeral secret part was not dealt for this HRS")
+	}
+
 	shareParts := make([]tsed25519.Scalar, 0)
 	publicKeys := make([]tsed25519.Element, 0)
 
-- 
2.43.0


From 5eef06079272eeba1b9307db923336afa1d97621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 02/29] fix: use each nonce only once

The nonce of a signed position was kept, and another encoding of the same
content or a timestamp with the same nanosecond count was signed with it
again, which reveals the key share.
---
 signer/local_cosigner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index d813fd1..a33a62c 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -250,6 +250,9 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		}
 	}
 
+	// a nonce must only be used once
+	delete(cosigner.hrsMeta, hrst)
+
 	res.EphemeralPublic = ephemeralPublic
 	res.Signature = sig
 	return res, nil
-- 
2.43.0


From 0d9668472d255eefeb8cd4bdfa019b058d73c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 03/29] fix: deal the nonce of a received part under its own
 timestamp

The metadata was stored a second time under a zero timestamp and shared
between all timestamps of the same height, round and step.
---
 signer/local_cosigner.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index a33a62c..bfa0263 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -448,9 +448,10 @@ func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSe
 	// generate metadata placeholder
 	if !ok {
 		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
-			Height: req.Height,
-			Round:  req.Round,
-			Step:   req.Step,
+			Height:    req.Height,
+			Round:     req.Round,
+			Step:      req.Step,
+			Timestamp: req.Timestamp,
 		})
 
 		if err != nil {
-- 
2.43.0


From 0558486cd5bbeb31c8e19306f76a6e274d5b0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 04/29] fix: keep the ephemeral public key of the recorded
 share

Signing again with another timestamp replaced the ephemeral public key of the
recorded signature share but not the share.
---
 signer/local_cosigner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index bfa0263..a7a0786 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -227,6 +227,7 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	sig := tsed25519.SignWithShare(
 		req.SignBytes, cosigner.key.ShareKey, ephemeralShare, cosigner.pubKeyBytes, ephemeralPublic)
 
+	previousEphemeralPublic := cosigner.lastSignState.EphemeralPublic
 	cosigner.lastSignState.EphemeralPublic = ephemeralPublic
 	err = cosigner.lastSignState.Save(SignStateConsensus{
 		Height:    hrst.Height,
@@ -237,6 +238,8 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	}, nil)
 
 	if err != nil {
+		// nothing was recorded, so the recorded signature keeps its ephemeral public key
+		cosigner.lastSignState.EphemeralPublic = previousEphemeralPublic
 		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {
 			return res, err
 		}
-- 
2.43.0


From d8fcc9df94055a09e2a37b4b6909196d8011e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 05/29] fix: do not answer with the cluster signature as a
 signature share

After learning the signature of the cluster a repeated sign request was
answered with it and a stale ephemeral public key.
---
 signer/local_cosigner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index a7a0786..40c0baa 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -175,7 +175,8 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	// If the HRS is the same the sign bytes may still differ by timestamp
 	// It is ok to re-sign a different timestamp if that is the only difference in the sign bytes
 	if sameHRS {
-		if bytes.Equal(req.SignBytes, lss.SignBytes) {
+		// A complete signature learned from the cluster is not our share, sign again in this case
+		if bytes.Equal(req.SignBytes, lss.SignBytes) && len(lss.Signature) != tmCryptoEd25519.SignatureSize {
 			res.EphemeralPublic = lss.EphemeralPublic
 			res.Signature = lss.Signature
 			return res, nil
-- 
2.43.0


From 289026fae3e243edcca1a1feb54e71f766d72d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 06/29] fix: persist the sign state before the signature is
 released

The state was written in the background: a crash could lose the position of a
released signature, and concurrent writes could leave an older state on disk.
---
 signer/sign_state.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index 62a66ef..6d227d0 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -133,9 +133,8 @@ func (signState *SignState) Save(ssc SignStateConsensus, lock *sync.Mutex) error
 	signState.Step = ssc.Step
 	signState.Signature = ssc.Signature
 	signState.SignBytes = ssc.SignBytes
-	go func() {
-		signState.save()
-	}()
+	// The state must be on disk before anything signed for it is released
+	signState.save()
 
 	return nil
 }
-- 
2.43.0


From 0e8e4577a1697229f8f34c270f575b0bb5c94cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 07/29] fix: never report success without a signature

A request below the last initiated position that differs only by timestamp
from the recorded one succeeded with an empty signature.
---
 signer/threshold_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 203a6d6..70b1fe1 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -349,7 +349,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			}
 		default:
 			existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
-			if sameBlockErr == nil {
+			if sameBlockErr == nil && existingSignature != nil {
 				return existingSignature, stamp, nil
 			}
 			return nil, existingTimestamp, pv.newBeyondBlockError(HRSKey{
-- 
2.43.0


From b2efedfef0bbc99b06fc1e107bbc3899edbb3f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 08/29] fix: sign only with the nonce parts of the request

Parts stored by an earlier request that was then refused stayed in place and
were added to the nonce of a later request for the same position, which made
the combined signature invalid.
---
 signer/local_cosigner.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 40c0baa..2eead1d 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -496,6 +496,25 @@ func (cosigner *LocalCosigner) SetEphemeralSecretPartsAndSign(
 		}
 	}
 
+	cosigner.keepEphemeralSecretParts(req.HRST, req.EncryptedSecrets)
+
 	res, err := cosigner.sign(CosignerSignRequest{req.SignBytes})
 	return &res, err
 }
+
+// keepEphemeralSecretParts drops the parts of other cosigners that are not among the given ones.
+// Parts left behind by an earlier request that failed must not contribute to the signature.
+func (cosigner *LocalCosigner) keepEphemeralSecretParts(hrst HRSTKey, parts []CosignerEphemeralSecretPart) {
+	cosigner.lastSignStateMutex.Lock()
+	defer cosigner.lastSignStateMutex.Unlock()
+
+	keep := map[int]bool{cosigner.key.ID: true}
+	for _, part := range parts {
+		keep[part.SourceID] = true
+	}
+	for i := range cosigner.hrsMeta[hrst].Peers {
+		if !keep[i+1] {
+			cosigner.hrsMeta[hrst].Peers[i] = PeerMetadata{}
+		}
+	}
+}
-- 
2.43.0


From 2fe9baca35afb2f401807be0a28927b5c341c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 09/29] fix: tell votes from proposals by their type

Sign bytes of a vote for nil at the epoch could be read as a proposal with
another timestamp, and bytes of an unknown type crashed the cosigner.
---
 signer/Serialization.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/signer/Serialization.go b/signer/Serialization.go
index 7cb039f..14e2a35 100644
--- a/signer/Serialization.go
+++ b/signer/Serialization.go
@@ -28,14 +28,15 @@ func WriteMsg(writer io.Writer, msg tmProtoPrivval.Message) (err error) {
 func UnpackHRST(signBytes []byte) (HRSTKey, error) {
 	{
 		var proposal tmProto.CanonicalProposal
-		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil && proposal.Type == tmProto.ProposalType {
 			return HRSTKey{proposal.Height, proposal.Round, stepPropose, proposal.Timestamp.UnixNano()}, nil
 		}
 	}
 
 	{
 		var vote tmProto.CanonicalVote
-		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil &&
+			(vote.Type == tmProto.PrevoteType || vote.Type == tmProto.PrecommitType) {
 			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil
 		}
 	}
-- 
2.43.0


From 49b251dc6181cf414a3622af2b9ddcd8ec9e8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 10/29] fix: refuse blocks that do not match their sign bytes

---
 signer/threshold_validator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 70b1fe1..b041664 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -320,6 +320,13 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 		Timestamp: stamp.UnixNano(),
 	}
 
+	// The block must be what the sign bytes say, otherwise progress would be recorded for the wrong block
+	if signBytesHRST, err := UnpackHRST(signBytes); err != nil {
+		return nil, stamp, err
+	} else if signBytesHRST != hrst {
+		return nil, stamp, errors.New("sign bytes do not match the block")
+	}
+
 	// Keep track of the last block that we began the signing process for. Only allow one attempt per block
 	if err := pv.SaveLastSignedStateInitiated(NewSignStateConsensus(height, round, step)); err != nil {
 		switch err.(type) {
-- 
2.43.0


From a4a14ffb2403b13dfdaede8b980717f083e397f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 11/29] fix: answer with the recorded signature after a leader
 change

---
 signer/threshold_validator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index b041664..5af9cda 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -327,6 +327,11 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 		return nil, stamp, errors.New("sign bytes do not match the block")
 	}
 
+	// The cluster may have signed this block already while another node was the leader
+	if signature, signedStamp, err := pv.getExistingBlockSignature(block); err == nil && signature != nil {
+		return signature, signedStamp, nil
+	}
+
 	// Keep track of the last block that we began the signing process for. Only allow one attempt per block
 	if err := pv.SaveLastSignedStateInitiated(NewSignStateConsensus(height, round, step)); err != nil {
 		switch err.(type) {
-- 
2.43.0


From 6259ca9762553af8b962fc4b2abecff7dcfc79b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 12/29] fix: sign only at the position the nonce parts were
 exchanged for

---
 signer/local_cosigner.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 2eead1d..cc5fd73 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -480,6 +480,15 @@ func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSe
 
 func (cosigner *LocalCosigner) SetEphemeralSecretPartsAndSign(
 	req CosignerSetEphemeralSecretPartsAndSignRequest) (*CosignerSignResponse, error) {
+	// the parts are for the nonce of this request only
+	hrst, err := UnpackHRST(req.SignBytes)
+	if err != nil {
+		return nil, err
+	}
+	if hrst != req.HRST {
+		return nil, errors.New("sign bytes do not match the HRST of the request")
+	}
+
 	for _, secretPart := range req.EncryptedSecrets {
 		err := cosigner.setEphemeralSecretPart(CosignerSetEphemeralSecretPartRequest{
 			SourceID:                       secretPart.SourceID,
-- 
2.43.0


From 9aaa609d4e5a6bb45db4e612460958e95ec81034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 13/29] fix: ignore replicated last-signed entries without a
 signature

---
 signer/raft_events.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signer/raft_events.go b/signer/raft_events.go
index a4e9aa7..857a10f 100644
--- a/signer/raft_events.go
+++ b/signer/raft_events.go
@@ -32,6 +32,10 @@ func (f *fsm) handleLSSEvent(value string) {
 		f.logger.Error("LSS Unmarshal Error", err.Error())
 		return
 	}
+	if len(lss.Signature) == 0 || len(lss.SignBytes) == 0 {
+		f.logger.Error("LSS Unmarshal Error", "no signature in last sign state")
+		return
+	}
 	_ = f.thresholdValidator.SaveLastSignedState(*lss)
 	_ = f.cosigner.SaveLastSignedState(*lss)
 }
-- 
2.43.0


From a53d5f1d346e2cd5087a2ad2230dd94c285e1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 14/29] fix: refuse malformed votes and proposals of a sentry
 instead of crashing

---
 signer/remote_signer.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index 46555ab..9cc68fb 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -1,6 +1,7 @@
 package signer
 
 import (
+	"errors"
 	"fmt"
 	"net"
 	"time"
@@ -143,6 +144,11 @@ func (rs *ReconnRemoteSigner) handleSignVoteRequest(vote *tmProto.Vote) tmProtoP
 		Vote:  tmProto.Vote{},
 		Error: nil,
 	}}
+	if err := validateVote(vote); err != nil {
+		rs.Logger.Error("Invalid vote", "address", rs.address, "error", err)
+		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -165,6 +171,11 @@ func (rs *ReconnRemoteSigner) handleSignProposalRequest(proposal *tmProto.Propos
 			Proposal: tmProto.Proposal{},
 			Error:    nil,
 		}}
+	if err := validateProposal(proposal); err != nil {
+		rs.Logger.Error("Invalid proposal", "address", rs.address, "error", err)
+		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -206,6 +217,27 @@ func (rs *ReconnRemoteSigner) handlePingRequest() tmProtoPrivval.Message {
 	return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PingResponse{PingResponse: &tmProtoPrivval.PingResponse{}}}
 }
 
+// validateVote checks what the sign bytes of a vote can not be made without.
+func validateVote(vote *tmProto.Vote) error {
+	if vote == nil {
+		return errors.New("no vote in request")
+	}
+	if vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType {
+		return fmt.Errorf("unknown vote type: %v", vote.Type)
+	}
+	_, err := tm.BlockIDFromProto(&vote.BlockID)
+	return err
+}
+
+// validateProposal checks what the sign bytes of a proposal can not be made without.
+func validateProposal(proposal *tmProto.Proposal) error {
+	if proposal == nil {
+		return errors.New("no proposal in request")
+	}
+	_, err := tm.BlockIDFromProto(&proposal.BlockID)
+	return err
+}
+
 func getRemoteSignerError(err error) *tmProtoPrivval.RemoteSignerError {
 	if err == nil {
 		return nil
-- 
2.43.0


From d31eef6d19b04a721bba2e1ba66504b719ca683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 15/29] fix: refuse every malformed chain node and peer address

---
 cmd/horcrux/cmd/config.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 052a7ce..0cd6f3f 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -210,8 +210,8 @@ func validateCosignerConfig(cfg *Config) error {
 	if err != nil {
 		return fmt.Errorf("%s is not a valid duration string for --timeout ", cfg.CosignerConfig.Timeout)
 	}
-	if _, err := url.Parse(cfg.CosignerConfig.P2PListen); err != nil {
-		return fmt.Errorf("failed to parse p2p listen address")
+	if err := validateP2PAddr(cfg.CosignerConfig.P2PListen); err != nil {
+		return fmt.Errorf("failed to parse p2p listen address: %v", err)
 	}
 	if err := validateCosignerPeers(cfg.CosignerConfig.Peers, cfg.CosignerConfig.Shares); err != nil {
 		return err
@@ -572,6 +572,9 @@ func validateCosignerPeers(peers []CosignerPeer, shares int) error {
 			return fmt.Errorf("peer ID %v in args is out of range, must be between 1 and %v",
 				peer.ShareID, shares)
 		}
+		if err := validateP2PAddr(peer.P2PAddr); err != nil {
+			return fmt.Errorf("invalid address of peer %v: %v", peer.ShareID, err)
+		}
 	}
 
 	// Check that no more than {num-shares}-1 peers are in the peer list, assuming
@@ -583,6 +586,16 @@ func validateCosignerPeers(peers []CosignerPeer, shares int) error {
 	return nil
 }
 
+// validateP2PAddr checks that addr names a host and a port.
+func validateP2PAddr(addr string) error {
+	url, err := url.Parse(addr)
+	if err != nil {
+		return err
+	}
+	_, _, err = net.SplitHostPort(url.Host)
+	return err
+}
+
 func duplicatePeers(peers []CosignerPeer) (duplicates []CosignerPeer) {
 	encountered := make(map[int]string)
 	for _, peer := range peers {
@@ -626,9 +639,14 @@ func parseChainNodes(nodes string) (out []ChainNode) {
 	return
 }
 
-func validateChainNodes(nodes []ChainNode) (err error) {
+func validateChainNodes(nodes []ChainNode) error {
 	for _, n := range nodes {
-		_, err = url.Parse(n.PrivValAddr)
+		if n.PrivValAddr == "" {
+			return errors.New("chain node address cannot be empty")
+		}
+		if _, err := url.Parse(n.PrivValAddr); err != nil {
+			return err
+		}
 	}
-	return
+	return nil
 }
-- 
2.43.0


From 75ae6df924a866e190eea94eeee73ec7718a3dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 16/29] fix: configure a chain node named twice only once

---
 cmd/horcrux/cmd/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 0cd6f3f..03a603e 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -633,7 +633,13 @@ func chainNodesFromArg(arg string) ([]ChainNode, error) {
 }
 
 func parseChainNodes(nodes string) (out []ChainNode) {
+	seen := make(map[string]bool)
 	for _, n := range strings.Split(nodes, ",") {
+		// each node is configured once, however often it is named
+		if seen[n] {
+			continue
+		}
+		seen[n] = true
 		out = append(out, ChainNode{PrivValAddr: n})
 	}
 	return
-- 
2.43.0


From 7905197f16def88a10d7122fa61776c9c9b8f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 17/29] fix: refuse to remove peers the threshold depends on

---
 cmd/horcrux/cmd/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 03a603e..16c77cf 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -405,6 +405,10 @@ func removePeersCmd() *cobra.Command {
 			if len(diff) == 0 {
 				return errors.New("cannot remove all peer nodes from config, please leave at least one")
 			}
+			if len(diff)+1 < config.CosignerConfig.Threshold {
+				return fmt.Errorf("cannot remove peer nodes, number of peers + 1 (%d) would be less than threshold (%d)",
+					len(diff)+1, config.CosignerConfig.Threshold)
+			}
 			// If none of the peer nodes in the args are listed in the config, just continue
 			// without throwing an error, as the peer nodes in the config remain untouched.
 			if err := validateCosignerPeers(diff, config.CosignerConfig.Shares); err != nil {
-- 
2.43.0


From ee8e2dd3af59f91cba76c80538f17e40d3501ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 18/29] fix: write the config file atomically

---
 cmd/horcrux/cmd/config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 16c77cf..bf27975 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -3,7 +3,6 @@ package cmd
 import (
 	"errors"
 	"fmt"
-	"io/ioutil"
 	"net"
 	"net/url"
 	"os"
@@ -15,6 +14,7 @@ import (
 	"github.com/mitchellh/go-homedir"
 	"github.com/spf13/cobra"
 	"github.com/strangelove-ventures/horcrux/signer"
+	"github.com/tendermint/tendermint/libs/tempfile"
 	"gopkg.in/yaml.v2"
 )
 
@@ -178,7 +178,8 @@ func initCmd() *cobra.Command {
 }
 
 func writeConfigFile(path string, cfg *Config) error {
-	return ioutil.WriteFile(path, cfg.MustMarshalYaml(), 0644) //nolint
+	// A write that fails half way must leave the existing config as it was
+	return tempfile.WriteFileAtomic(path, cfg.MustMarshalYaml(), 0644)
 }
 
 func validateSingleSignerConfig(cfg *Config) error {
-- 
2.43.0


From ff24425b79b67c72586e0b0b838f7a7ba704626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 19/29] fix: never replace an existing sign state that cannot
 be read

---
 cmd/horcrux/cmd/config.go | 48 ++++++++++++++++++++++++++++++---------
 signer/sign_state.go      | 12 +++++++---
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index bf27975..2879e04 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -52,6 +52,9 @@ func initCmd() *cobra.Command {
 		Args: cobra.RangeArgs(1, 2),
 		RunE: func(cmd *cobra.Command, args []string) (err error) {
 			cid := args[0]
+			if err = validateChainID(cid); err != nil {
+				return err
+			}
 			var cn []ChainNode
 			if len(args) == 2 {
 				cn, err = chainNodesFromArg(args[1])
@@ -141,25 +144,37 @@ func initCmd() *cobra.Command {
 			if err = os.MkdirAll(path.Join(home, "state"), 0755); err != nil {
 				return err
 			}
-			// create the config file
-			if err = writeConfigFile(configYamlPath, cfg); err != nil {
-				return err
-			}
 
 			// initialize state/{chainid}_priv_validator_state.json file
-			if _, err = signer.LoadOrCreateSignState(
-				path.Join(home, "state", fmt.Sprintf("%s_priv_validator_state.json", cid))); err != nil {
-				return err
-			}
+			stateFiles := []string{path.Join(home, "state", fmt.Sprintf("%s_priv_validator_state.json", cid))}
 
-			// if node is a cosigner initialize state/{chainid}_priv_validator_state.json file
+			// if node is a cosigner initialize state/{chainid}_share_sign_state.json file
 			if cs {
-				if _, err = signer.LoadOrCreateSignState(
-					path.Join(home, "state", fmt.Sprintf("%s_share_sign_state.json", cid))); err != nil {
+				stateFiles = append(stateFiles, path.Join(home, "state", fmt.Sprintf("%s_share_sign_state.json", cid)))
+			}
+
+			// remove the state files created here unless everything succeeds
+			var created []string
+			defer func() {
+				for _, f := range created {
+					os.Remove(f)
+				}
+			}()
+			for _, f := range stateFiles {
+				if _, err := os.Stat(f); os.IsNotExist(err) {
+					created = append(created, f)
+				}
+				if _, err = signer.LoadOrCreateSignState(f); err != nil {
 					return err
 				}
 			}
 
+			// create the config file
+			if err = writeConfigFile(configYamlPath, cfg); err != nil {
+				return err
+			}
+			created = nil
+
 			fmt.Printf("Successfully initialized configuration: %s\n", configYamlPath)
 			return nil
 		},
@@ -182,6 +197,17 @@ func writeConfigFile(path string, cfg *Config) error {
 	return tempfile.WriteFileAtomic(path, cfg.MustMarshalYaml(), 0644)
 }
 
+// validateChainID checks that the chain ID can name the state files.
+func validateChainID(chainID string) error {
+	if chainID == "" {
+		return errors.New("chain-id cannot be empty")
+	}
+	if strings.ContainsRune(chainID, os.PathSeparator) {
+		return fmt.Errorf("chain-id %q cannot contain a path separator", chainID)
+	}
+	return nil
+}
+
 func validateSingleSignerConfig(cfg *Config) error {
 	if cfg.ChainID == "" {
 		return fmt.Errorf("chain-id cannot be empty")
diff --git a/signer/sign_state.go b/signer/sign_state.go
index 6d227d0..4b8f958 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"sync"
 
 	"github.com/gogo/protobuf/proto"
@@ -265,15 +266,20 @@ func LoadSignState(filepath string) (SignState, error) {
 }
 
 // LoadOrCreateSignState loads the sign state from filepath
-// If the sign state could not be loaded, an empty sign state is initialized
-// and saved to filepath.
+// If there is no sign state at filepath (no file or an empty one), an empty
+// sign state is initialized and saved to filepath.
 func LoadOrCreateSignState(filepath string) (SignState, error) {
 	existing, err := LoadSignState(filepath)
 	if err == nil {
 		return existing, nil
 	}
+	if info, statErr := os.Stat(filepath); !os.IsNotExist(statErr) && (statErr != nil || info.Size() > 0) {
+		// A sign state that exists but cannot be read must not be replaced,
+		// the watermark it holds would be lost
+		return existing, fmt.Errorf("error loading sign state %s: %v", filepath, err)
+	}
 
-	// There was an error loading the sign state
+	// There is no sign state yet
 	// Make an empty sign state and save it
 	state := SignState{}
 	state.filePath = filepath
-- 
2.43.0


From 3c0447cf3f5cbe2008d04ab35fa345d9265ed860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 20/29] fix: chain-id set never replaces another chain's state
 and undoes partial renames

---
 cmd/horcrux/cmd/config.go | 47 +++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 2879e04..430d051 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -532,15 +532,30 @@ func setChainIDCmd() *cobra.Command {
 			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
 			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
 
-			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
+			if err = validateChainID(args[0]); err != nil {
 				return err
 			}
-			if err = os.Rename(shareOldPath, shareNewPath); err != nil {
-				return err
+			if args[0] == config.ChainID {
+				return nil
+			}
+
+			renames := [][2]string{{pvOldPath, pvNewPath}}
+			// only cosigners need a share sign state
+			if _, err := os.Stat(shareOldPath); config.CosignerConfig != nil || !os.IsNotExist(err) {
+				renames = append(renames, [2]string{shareOldPath, shareNewPath})
+			}
+			for _, newPath := range []string{pvNewPath, shareNewPath} {
+				if _, err := os.Lstat(newPath); !os.IsNotExist(err) {
+					return fmt.Errorf("%s already exists, cannot replace the state of chain %s", newPath, args[0])
+				}
 			}
 
+			oldChainID := config.ChainID
 			config.ChainID = args[0]
-			if err = writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
+			if err = renameAll(renames, func() error {
+				return writeConfigFile(path.Join(home, "config.yaml"), config)
+			}); err != nil {
+				config.ChainID = oldChainID
 				return err
 			}
 			return nil
@@ -548,6 +563,30 @@ func setChainIDCmd() *cobra.Command {
 	}
 }
 
+// renameAll applies all renames (old path, new path) and then calls then. If
+// anything fails, the renames are undone.
+func renameAll(renames [][2]string, then func() error) error {
+	for i, r := range renames {
+		if err := os.Rename(r[0], r[1]); err != nil {
+			undoRenames(renames[:i])
+			return err
+		}
+	}
+	if err := then(); err != nil {
+		undoRenames(renames)
+		return err
+	}
+	return nil
+}
+
+func undoRenames(renames [][2]string) {
+	for i := len(renames) - 1; i >= 0; i-- {
+		if err := os.Rename(renames[i][1], renames[i][0]); err != nil {
+			fmt.Printf("Failed to rename %s back to %s: %v\n", renames[i][1], renames[i][0], err)
+		}
+	}
+}
+
 type Config struct {
 	HomeDir        string          `json:"home-dir" yaml:"home-dir"`
 	PrivValKeyFile string          `json:"key-file,omitempty" yaml:"key-file,omitempty"`
-- 
2.43.0


From 3f226a512e010f451f01a5e9e79592b8c1160568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 21/29] fix: state set refuses heights that are not above both
 watermarks

---
 cmd/horcrux/cmd/state.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index d2ebbca..d059480 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -114,9 +114,16 @@ func setStateCmd() *cobra.Command {
 				Signature: nil,
 				SignBytes: nil,
 			}
-			_ = pv.Save(signState, nil)
-			_ = share.Save(signState, nil)
-			return nil
+			// The height must be above both watermarks before either is changed
+			for _, state := range []*signer.SignState{&pv, &share} {
+				if err := state.GetErrorIfLessOrEqual(signState.Height, signState.Round, signState.Step, nil); err != nil {
+					return err
+				}
+			}
+			if err := share.Save(signState, nil); err != nil {
+				return err
+			}
+			return pv.Save(signState, nil)
 		},
 	}
 }
-- 
2.43.0


From 82637052f83fe92756d8be333c1e80e0918db961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 22/29] fix: serve cosigner peers only once the validator is
 set

---
 cmd/horcrux/cmd/cosigner.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index f11572c..adde0f8 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -217,13 +217,9 @@ func StartCosignerCmd() *cobra.Command {
 			// RAFT node ID is the cosigner ID
 			nodeID := fmt.Sprint(key.ID)
 
-			// Start RAFT store listener
+			// Create RAFT store listener
 			raftStore := signer.NewRaftStore(nodeID,
 				raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners)
-			if err := raftStore.Start(); err != nil {
-				log.Fatalf("Error starting raft store: %v\n", err)
-			}
-			services = append(services, raftStore)
 
 			val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
 				Pubkey:    key.PubKey,
@@ -237,6 +233,12 @@ func StartCosignerCmd() *cobra.Command {
 
 			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))
 
+			// Requests of peers need the validator, so serve them only now
+			if err := raftStore.Start(); err != nil {
+				log.Fatalf("Error starting raft store: %v\n", err)
+			}
+			services = append(services, raftStore)
+
 			pv = &signer.PvGuard{PrivValidator: val}
 
 			pubkey, err := pv.GetPubKey()
-- 
2.43.0


From f68790f0f2f8b4cfdefb854c5a1dfd0da888d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 23/29] fix: load the share sign state before creating any
 state file

---
 cmd/horcrux/cmd/cosigner.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index adde0f8..5f9e535 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -155,14 +155,6 @@ func StartCosignerCmd() *cobra.Command {
 				return fmt.Errorf("error reading cosigner key: %s", err)
 			}
 
-			// ok to auto initialize on disk since the cosigner share is the one that actually
-			// protects against double sign - this exists as a cache for the final signature
-			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
-			signState, err := signer.LoadOrCreateSignState(stateFile)
-			if err != nil {
-				panic(err)
-			}
-
 			// state for our cosigner share
 			// Not automatically initialized on disk to avoid double sign risk
 			shareStateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_share_sign_state.json", chainID))
@@ -171,6 +163,14 @@ func StartCosignerCmd() *cobra.Command {
 				panic(err)
 			}
 
+			// ok to auto initialize on disk since the cosigner share is the one that actually
+			// protects against double sign - this exists as a cache for the final signature
+			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
+			signState, err := signer.LoadOrCreateSignState(stateFile)
+			if err != nil {
+				panic(err)
+			}
+
 			cosigners := []signer.Cosigner{}
 
 			// add ourselves as a peer so localcosigner can handle GetEphSecPart requests
-- 
2.43.0


From 06206907e46834643246b142621b68da06b5a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 24/29] fix: refuse to start a cosigner whose key and
 configuration do not fit together

---
 cmd/horcrux/cmd/config.go   | 11 ++++-------
 cmd/horcrux/cmd/cosigner.go | 30 ++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 430d051..df0bbe1 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -52,9 +52,6 @@ func initCmd() *cobra.Command {
 		Args: cobra.RangeArgs(1, 2),
 		RunE: func(cmd *cobra.Command, args []string) (err error) {
 			cid := args[0]
-			if err = validateChainID(cid); err != nil {
-				return err
-			}
 			var cn []ChainNode
 			if len(args) == 2 {
 				cn, err = chainNodesFromArg(args[1])
@@ -209,8 +206,8 @@ func validateChainID(chainID string) error {
 }
 
 func validateSingleSignerConfig(cfg *Config) error {
-	if cfg.ChainID == "" {
-		return fmt.Errorf("chain-id cannot be empty")
+	if err := validateChainID(cfg.ChainID); err != nil {
+		return err
 	}
 	if len(cfg.ChainNodes) == 0 {
 		return fmt.Errorf("need to have a node configured to sign for")
@@ -222,8 +219,8 @@ func validateSingleSignerConfig(cfg *Config) error {
 }
 
 func validateCosignerConfig(cfg *Config) error {
-	if cfg.ChainID == "" {
-		return fmt.Errorf("chain-id cannot be empty")
+	if err := validateChainID(cfg.ChainID); err != nil {
+		return err
 	}
 	if cfg.CosignerConfig == nil {
 		return fmt.Errorf("cosigner config can't be empty")
diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 5f9e535..8b0941a 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -103,6 +103,33 @@ func AddressCmd() *cobra.Command {
 	return cmd
 }
 
+// validateCosignerKey checks that the key and the configuration fit together.
+func validateCosignerKey(key signer.CosignerKey, cfg *CosignerConfig) error {
+	shares := len(key.CosignerKeys)
+	if key.ID < 1 || key.ID > shares {
+		return fmt.Errorf("key share ID %d is out of range, must be between 1 and %d", key.ID, shares)
+	}
+	if len(key.ShareKey) != 32 {
+		return fmt.Errorf("key share %d has %d bytes, must have 32", key.ID, len(key.ShareKey))
+	}
+	if !key.RSAKey.PublicKey.Equal(key.CosignerKeys[key.ID-1]) {
+		return fmt.Errorf("RSA key of key share %d does not match its public key", key.ID)
+	}
+	for _, peer := range cfg.Peers {
+		if peer.ShareID == key.ID {
+			return fmt.Errorf("peer %d has the ID of the local key share", peer.ShareID)
+		}
+		if peer.ShareID > shares {
+			return fmt.Errorf("peer ID %d is out of range, must be between 1 and %d", peer.ShareID, shares)
+		}
+	}
+	// A minority must not be able to sign
+	if 2*cfg.Threshold <= shares {
+		return fmt.Errorf("threshold (%d) must be a majority of the key shares (%d)", cfg.Threshold, shares)
+	}
+	return nil
+}
+
 func StartCosignerCmd() *cobra.Command {
 	cmd := &cobra.Command{
 		Use:   "start",
@@ -154,6 +181,9 @@ func StartCosignerCmd() *cobra.Command {
 			if err != nil {
 				return fmt.Errorf("error reading cosigner key: %s", err)
 			}
+			if err := validateCosignerKey(key, config.CosignerConfig); err != nil {
+				return err
+			}
 
 			// state for our cosigner share
 			// Not automatically initialized on disk to avoid double sign risk
-- 
2.43.0


From 149cc11562eb5794319cffc5263e0bdd7ffbf942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 25/29] fix: allow a peer list that leaves out a share ID

---
 cmd/horcrux/cmd/cosigner.go   | 3 ++-
 signer/threshold_validator.go | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 8b0941a..c07ae74 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -224,7 +224,8 @@ func StartCosignerCmd() *cobra.Command {
 				})
 			}
 
-			total := len(cfg.Cosigners) + 1
+			// nonces are dealt to every share ID, whether or not it is configured as a peer
+			total := len(key.CosignerKeys)
 			localCosignerConfig := signer.LocalCosignerConfig{
 				CosignerKey: key,
 				SignState:   &shareSignState,
diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 5af9cda..1e22f6c 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -372,8 +372,13 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 		}
 	}
 
-	numPeers := len(pv.peers)
-	total := uint8(numPeers + 1)
+	// share IDs can be above the number of cosigners if not all of them are configured
+	total := uint8(pv.cosigner.GetID())
+	for _, peer := range pv.peers {
+		if id := uint8(peer.GetID()); id > total {
+			total = id
+		}
+	}
 	getEphemeralWaitGroup := sync.WaitGroup{}
 
 	// Only wait until we have threshold sigs
-- 
2.43.0


From d1d6d167c8704568fbe7a76358539bc9ca5a1ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 26/29] fix: resume the single signer from its recorded sign
 state

---
 cmd/horcrux/cmd/signer.go | 34 +++++++++++++++++++++++++++-------
 signer/sign_state.go      | 14 +++++++++++++-
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/cmd/horcrux/cmd/signer.go b/cmd/horcrux/cmd/signer.go
index 58819e7..0d7cd09 100644
--- a/cmd/horcrux/cmd/signer.go
+++ b/cmd/horcrux/cmd/signer.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"path"
 
@@ -69,13 +70,12 @@ func StartSignerCmd() *cobra.Command {
 			var val types.PrivValidator
 			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
 
-			// Triple check that this is how we will handle state file and that this behaves as intended
-			// if f, err := os.Stat(stateFile); os.IsNotExist(err) || f.Size() == 0 {
-			//  	val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
-			// 	} else {
-			//  	val = privval.LoadFilePV(cfg.PrivValKeyFile, stateFile)
-			//  }
-			val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
+			// Resume from the recorded state, starting without it risks a double sign
+			filePV, err := loadFilePV(cfg.PrivValKeyFile, stateFile)
+			if err != nil {
+				return err
+			}
+			val = filePV
 
 			pv = &signer.PvGuard{PrivValidator: val}
 
@@ -98,3 +98,23 @@ func StartSignerCmd() *cobra.Command {
 
 	return cmd
 }
+
+// loadFilePV loads the key and the last sign state, which is in the format of
+// privval.FilePV once it has signed and in the format of signer.SignState after
+// "config init".
+func loadFilePV(keyFile, stateFile string) (*privval.FilePV, error) {
+	signState, err := signer.LoadSignState(stateFile)
+	if err != nil {
+		return nil, fmt.Errorf("error reading sign state: %v", err)
+	}
+	if signState.Round < 0 || signState.Round > math.MaxInt32 {
+		return nil, fmt.Errorf("round %d of sign state %s is out of range", signState.Round, stateFile)
+	}
+	filePV := privval.LoadFilePVEmptyState(keyFile, stateFile)
+	filePV.LastSignState.Height = signState.Height
+	filePV.LastSignState.Round = int32(signState.Round)
+	filePV.LastSignState.Step = signState.Step
+	filePV.LastSignState.Signature = signState.Signature
+	filePV.LastSignState.SignBytes = signState.SignBytes
+	return filePV, nil
+}
diff --git a/signer/sign_state.go b/signer/sign_state.go
index 4b8f958..212d08b 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -14,6 +14,7 @@ import (
 	tmJson "github.com/tendermint/tendermint/libs/json"
 	"github.com/tendermint/tendermint/libs/protoio"
 	"github.com/tendermint/tendermint/libs/tempfile"
+	"github.com/tendermint/tendermint/privval"
 	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
 )
 
@@ -251,7 +252,18 @@ func LoadSignState(filepath string) (SignState, error) {
 
 	err = tmJson.Unmarshal(stateJSONBytes, &state)
 	if err != nil {
-		return state, err
+		// the single signer and tendermint nodes encode the round as a number
+		var pvState privval.FilePVLastSignState
+		if tmJson.Unmarshal(stateJSONBytes, &pvState) != nil {
+			return state, err
+		}
+		state = SignState{
+			Height:    pvState.Height,
+			Round:     int64(pvState.Round),
+			Step:      pvState.Step,
+			Signature: pvState.Signature,
+			SignBytes: pvState.SignBytes,
+		}
 	}
 	state.cache = make(map[HRSKey]SignStateConsensus)
 	state.cache[HRSKey{Height: state.Height, Round: state.Round, Step: state.Step}] = SignStateConsensus{
-- 
2.43.0


From 9251ce9e96ae308634573885fcc7fd5b236208bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 27/29] fix: keep leadership when it is moved to the member
 that has it

---
 signer/grpc_server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signer/grpc_server.go b/signer/grpc_server.go
index e524a84..de59cbc 100644
--- a/signer/grpc_server.go
+++ b/signer/grpc_server.go
@@ -72,6 +72,13 @@ func (rpc *GRPCServer) TransferLeadership(
 ) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
 	leaderID := req.GetLeaderID()
 	if leaderID != "" {
+		if leaderID == rpc.raftStore.NodeID && rpc.raftStore.raft.State() == raft.Leader {
+			// Already the leader, a transfer would move leadership to another member
+			return &proto.CosignerGRPCTransferLeadershipResponse{
+				LeaderID:      leaderID,
+				LeaderAddress: p2pURLToRaftAddress(rpc.raftStore.RaftBind),
+			}, nil
+		}
 		for _, peer := range rpc.raftStore.Peers {
 			thisPeerID := fmt.Sprint(peer.GetID())
 			if thisPeerID == leaderID {
-- 
2.43.0


From f0b1d013474c2a1ed8eb7f60fd19af17c20494fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 28/29] fix: refuse to create shares that cannot sign or that a
 minority could sign with

---
 signer/cosigner_key_shares.go | 37 +++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 7d51ab3..a70699d 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -4,8 +4,13 @@ import (
 	"crypto/rand"
 	"crypto/rsa"
 	"encoding/json"
+	"errors"
+	"fmt"
 	"io/ioutil"
+	"math"
+	"math/big"
 
+	tmed25519 "github.com/tendermint/tendermint/crypto/ed25519"
 	tmjson "github.com/tendermint/tendermint/libs/json"
 	"github.com/tendermint/tendermint/privval"
 	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
@@ -22,6 +27,15 @@ func CreateCosignerSharesFromFile(priv string, threshold, shares int64) ([]Cosig
 
 // CreateCosignerShares creates cosigner key objects from a privval.FilePVKey
 func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []CosignerKey, err error) {
+	if err := validateShares(threshold, shares); err != nil {
+		return nil, err
+	}
+	if _, ok := pv.PrivKey.(tmed25519.PrivKey); !ok {
+		return nil, errors.New("private key must be an ed25519 key")
+	}
+	if !pv.PrivKey.PubKey().Equals(pv.PubKey) {
+		return nil, errors.New("public key does not belong to the private key")
+	}
 	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), uint8(threshold), uint8(shares))
 	rsaKeys, pubKeys, err := makeRSAKeys(len(privshares))
 	if err != nil {
@@ -39,6 +53,29 @@ func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []
 	return
 }
 
+// validateShares checks that any threshold of the shares can sign and that no minority can.
+func validateShares(threshold, shares int64) error {
+	if threshold < 2 {
+		return fmt.Errorf("threshold (%d) must be at least 2", threshold)
+	}
+	if threshold > shares {
+		return fmt.Errorf("threshold (%d) must not be greater than the number of shares (%d)", threshold, shares)
+	}
+	if threshold <= shares/2 {
+		return fmt.Errorf("threshold (%d) must be more than half of the number of shares (%d)", threshold, shares)
+	}
+	if shares > math.MaxUint8 {
+		return fmt.Errorf("number of shares (%d) must not be greater than %d", shares, math.MaxUint8)
+	}
+	// CombineShares calculates with 64 bit integers of up to shares! times the highest threshold-1 share IDs
+	limit := new(big.Int).MulRange(2, shares)
+	limit.Mul(limit, new(big.Int).MulRange(shares-threshold+2, shares))
+	if !limit.IsInt64() {
+		return fmt.Errorf("signatures of %d of %d shares cannot be combined", threshold, shares)
+	}
+	return nil
+}
+
 // ReadPrivValidatorFile reads in a privval.FilePVKey from a given file
 func ReadPrivValidatorFile(priv string) (out privval.FilePVKey, err error) {
 	var bz []byte
-- 
2.43.0


From dd1240f46be00109e5ebedd8bb9a5d6db295ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 29/29] fix: state set does not take itself for a running
 signer

---
 cmd/horcrux/cmd/state.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index d059480..02e3a57 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path"
 	"strconv"
+	"strings"
 
 	"github.com/mitchellh/go-homedir"
 	"github.com/spf13/cobra"
@@ -131,7 +132,13 @@ func setStateCmd() *cobra.Command {
 func isRunning() bool {
 	pipe := "ps -ax | pgrep horcrux"
 	bz, _ := exec.Command("bash", "-c", pipe).Output()
-	return len(bz) != 0
+	for _, pid := range strings.Fields(string(bz)) {
+		// this process is not a running signer
+		if pid != strconv.Itoa(os.Getpid()) {
+			return true
+		}
+	}
+	return false
 }
 
 func printSignState(ss signer.SignState) {
-- 
2.43.0

