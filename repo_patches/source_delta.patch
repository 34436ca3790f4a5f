From 2503dabdde0e6f41ade29d7806ad3730c2b9c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 01/48] fix: lock the store while data provider responses are
 inserted

---
 lib/store/store.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/store/store.go b/lib/store/store.go
index 98bdc10..b94fbb9 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -80,6 +80,10 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 	clearWhr, newResp.WhereEnc = proccessParameters(whereStrings, cr.WhereClear, cr.WhereEnc, noEnc)
 	_, newResp.AggregatingAttributes = proccessParameters(sum, cr.AggregatingAttributesClear, cr.AggregatingAttributesEnc, false)
 
+	// data providers upload their responses concurrently
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	if !noEnc {
 		s.DpResponses = append(s.DpResponses, newResp)
 	} else {
@@ -109,6 +113,9 @@ func (s *Store) HasNextDpResponse() bool {
 
 // PullDpResponses permits to get the received DP responses
 func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	result := s.DpResponses
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
-- 
2.43.0


From eb9aeb5cc4d6390af03a6fadacd0c98eaae1c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 02/48] fix: do not write a stale copy of the survey back when
 data is uploaded

---
 services/service.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/services/service.go b/services/service.go
index dddecc0..167cb1e 100644
--- a/services/service.go
+++ b/services/service.go
@@ -218,12 +218,10 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		if err := dr.FromDpResponseToSend(v); err != nil {
 			return err
 		}
+		// the store is shared by all copies of the survey: putting back this copy
+		// would undo a concurrent update of the survey (e.g. of the querier's key)
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
-	err = s.putSurvey(resp.SurveyID, survey)
-	if err != nil {
-		return err
-	}
 
 	log.Lvl1(s.ServerIdentity(), " uploaded response data for survey ", resp.SurveyID)
 	return nil
-- 
2.43.0


From 32dd7cbdc7a8e5a1ff0ce956252183384c8b510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 03/48] fix: report the error of a failed protocol instead of
 dereferencing a nil error

---
 services/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index 167cb1e..feaf818 100644
--- a/services/service.go
+++ b/services/service.go
@@ -604,12 +604,12 @@ func (s *Service) StartProtocol(name string, targetSurvey SurveyID) (onet.Protoc
 
 	go func(pname string) {
 		if tmpErr := pi.Dispatch(); tmpErr != nil {
-			log.Error("Error running Dispatch ->" + name + " :" + err.Error())
+			log.Error("Error running Dispatch ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 	go func(pname string) {
 		if tmpErr := pi.Start(); tmpErr != nil {
-			log.Error("Error running Start ->" + name + " :" + err.Error())
+			log.Error("Error running Start ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 
-- 
2.43.0


From fa61664f0d2d62f491faf8dcbc001de672dee6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:33 +0000
Subject: [PATCH 04/48] fix: pair the length and data messages of the children
 by sender in the collective aggregation

---
 protocols/collective_aggregation_protocol.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 12e184d..f79c148 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -215,14 +215,15 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 		for _, v := range <-p.LengthNodeChannel {
 			length = append(length, v)
 		}
-		datas := make([]childAggregatedDataBytesStruct, 0)
+		// the children's messages come in any order: pair them by their sender
+		datas := make(map[onet.TreeNodeID][]byte)
 		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+			datas[v.TreeNode.ID] = v.Data
 		}
 
-		for i, v := range length {
+		for _, v := range length {
 			childrenContribution := ChildAggregatedDataMessage{}
-			err := childrenContribution.FromBytes(datas[i].Data, v.GacbLength, v.AabLength, v.DtbLength)
+			err := childrenContribution.FromBytes(datas[v.TreeNode.ID], v.GacbLength, v.AabLength, v.DtbLength)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From c578c1a64820614232b6bcbcc793c1ac7354e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 05/48] fix: do not wait forever for the messages of a failed
 server

---
 services/service.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index feaf818..ba834ed 100644
--- a/services/service.go
+++ b/services/service.go
@@ -323,8 +323,14 @@ func (s *Service) HandleSurveyCreationQuery(recq *SurveyCreationQuery) (network.
 		}
 
 		counter := len(recq.Roster.List) - 1
+		timeout := time.After(libunlynx.TIMEOUT)
 		for counter > 0 {
-			counter = counter - (<-survey.SurveyChannel)
+			select {
+			case received := <-survey.SurveyChannel:
+				counter = counter - received
+			case <-timeout:
+				return nil, fmt.Errorf(s.ServerIdentity().String() + " didn't get all the <QueryBroadcastFinished> on time")
+			}
 		}
 	}
 	return &ServiceState{recq.SurveyID}, nil
@@ -502,8 +508,14 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 		}
 
 		counter := len(tn.Roster().List) - 1
+		timeout := time.After(libunlynx.TIMEOUT)
 		for counter > 0 {
-			counter = counter - (<-survey.DDTChannel)
+			select {
+			case finished := <-survey.DDTChannel:
+				counter = counter - finished
+			case <-timeout:
+				return nil, fmt.Errorf(s.ServerIdentity().String() + " didn't get all the <DDTfinished> on time")
+			}
 		}
 
 	case protocolsunlynx.DROProtocolName:
-- 
2.43.0


From e93cced695f18a7d9cdab03d543a9378743123dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 06/48] fix: do not block a connection in the aggregation while
 its DDTfinished message is still to come

---
 services/service.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/services/service.go b/services/service.go
index ba834ed..23d3dcd 100644
--- a/services/service.go
+++ b/services/service.go
@@ -507,7 +507,13 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			return &proof
 		}
 
-		counter := len(tn.Roster().List) - 1
+		// only the root waits: it starts the aggregation once all servers are done, and
+		// another server would block the connection on which its parent may still have
+		// to send its own DDTfinished
+		counter := 0
+		if tn.IsRoot() {
+			counter = len(tn.Roster().List) - 1
+		}
 		timeout := time.After(libunlynx.TIMEOUT)
 		for counter > 0 {
 			select {
-- 
2.43.0


From 8c6a931439a142c7b8902d6d3a7a627a9fdd5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 07/48] fix: let the key switching root wait for its own
 contribution on a single-server tree

---
 protocols/key_switching_protocol.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index a774605..e5d4e0d 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -102,6 +102,7 @@ type KeySwitchingProtocol struct {
 
 	// Protocol root data
 	NodeContribution *libunlynx.CipherVector
+	started          chan struct{} // closed once the root computed its contribution
 
 	// Protocol state data
 	TargetOfSwitch  *libunlynx.CipherVector
@@ -121,6 +122,7 @@ func NewKeySwitchingProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, e
 	pap := &KeySwitchingProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan libunlynx.CipherVector),
+		started:          make(chan struct{}),
 	}
 
 	err := pap.RegisterChannel(&pap.DownChannel)
@@ -171,6 +173,7 @@ func (p *KeySwitchingProtocol) Start() error {
 		p.ProofFunc(p.Public(), *p.TargetPublicKey, p.Private(), ks2s, rBNegs, vis)
 	}
 	p.NodeContribution = &switchedCiphers
+	close(p.started)
 
 	data, err := libunlynx.AbstractPointsToBytes(initialTab)
 	if err != nil {
@@ -202,6 +205,13 @@ func (p *KeySwitchingProtocol) Dispatch() error {
 			p.ProofFunc(p.Public(), targetPublicKey, p.Private(), ks2s, rBNegs, vis)
 		}
 		p.NodeContribution = &switchedCiphers
+	} else {
+		// without children, there is no answer to wait for before using the root's own contribution
+		select {
+		case <-p.started:
+		case <-time.After(libunlynx.TIMEOUT):
+			return fmt.Errorf(p.ServerIdentity().String() + " didn't start the key switching on time")
+		}
 	}
 
 	// 2. Ascending key switching phase
-- 
2.43.0


From acfd0d263c01255d0e91cbafd56a492cbbe2c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 08/48] fix: give every instance of the local protocols its own
 result channel

---
 protocols/utils/addrm_server_protocol.go            | 10 ++++++----
 protocols/utils/local_aggregation_protocol.go       | 10 ++++++----
 protocols/utils/local_clear_aggregation_protocol.go | 10 ++++++----
 protocols/utils/proofs_verification_protocol.go     | 10 ++++++----
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 9fbcc91..6769c0f 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -34,6 +34,9 @@ type AddRmServerProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.CipherText
 
+	// Protocol result, from Start to Dispatch
+	finalResult chan []libunlynx.CipherText
+
 	// Protocol state data
 	TargetOfTransformation []libunlynx.CipherText
 	KeyToRm                kyber.Scalar
@@ -46,13 +49,12 @@ func NewAddRmProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
 	pvp := &AddRmServerProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.CipherText),
+		finalResult:      make(chan []libunlynx.CipherText),
 	}
 
 	return pvp, nil
 }
 
-var finalResultAddrm = make(chan []libunlynx.CipherText)
-
 // Start is called at the root to start the execution of the Add/Rm protocol.
 func (p *AddRmServerProtocol) Start() error {
 
@@ -85,7 +87,7 @@ func (p *AddRmServerProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAddrm <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -95,7 +97,7 @@ func (p *AddRmServerProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.CipherText
 	select {
-	case finalResultMessage = <-finalResultAddrm:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_aggregation_protocol.go b/protocols/utils/local_aggregation_protocol.go
index 665cb3b..2546a22 100644
--- a/protocols/utils/local_aggregation_protocol.go
+++ b/protocols/utils/local_aggregation_protocol.go
@@ -23,8 +23,6 @@ func init() {
 // Protocol
 //______________________________________________________________________________________________________________________
 
-var finalResultAggr = make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
-
 // LocalAggregationProtocol is a struct holding the state of a protocol instance.
 type LocalAggregationProtocol struct {
 	*onet.TreeNodeInstance
@@ -32,6 +30,9 @@ type LocalAggregationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 
+	// Protocol result, from Start to Dispatch
+	finalResult chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
+
 	// Protocol state data
 	TargetOfAggregation []libunlynx.FilteredResponseDet
 	Proofs              bool
@@ -42,6 +43,7 @@ func NewLocalAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstanc
 	pvp := &LocalAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
+		finalResult:      make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
 	}
 	return pvp, nil
 }
@@ -75,7 +77,7 @@ func (p *LocalAggregationProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAggr <- resultingMap
+	p.finalResult <- resultingMap
 
 	return nil
 }
@@ -86,7 +88,7 @@ func (p *LocalAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 	select {
-	case finalResultMessage = <-finalResultAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_clear_aggregation_protocol.go b/protocols/utils/local_clear_aggregation_protocol.go
index 9e73549..4f534df 100644
--- a/protocols/utils/local_clear_aggregation_protocol.go
+++ b/protocols/utils/local_clear_aggregation_protocol.go
@@ -29,6 +29,9 @@ type LocalClearAggregationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.DpClearResponse
 
+	// Protocol result, from Start to Dispatch
+	finalResult chan []libunlynx.DpClearResponse
+
 	// Protocol state data
 	TargetOfAggregation []libunlynx.DpClearResponse
 }
@@ -38,19 +41,18 @@ func NewLocalClearAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolIn
 	pvp := &LocalClearAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.DpClearResponse),
+		finalResult:      make(chan []libunlynx.DpClearResponse),
 	}
 	return pvp, nil
 }
 
-var finalResultClearAggr = make(chan []libunlynx.DpClearResponse)
-
 // Start is called at the root to start the execution of the local clear aggregation.
 func (p *LocalClearAggregationProtocol) Start() error {
 	log.Lvl1(p.ServerIdentity(), "started a local clear aggregation protocol")
 	roundComput := libunlynx.StartTimer(p.Name() + "_LocalClearAggregation(START)")
 	result := libunlynxstore.AddInClear(p.TargetOfAggregation)
 	libunlynx.EndTimer(roundComput)
-	finalResultClearAggr <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -60,7 +62,7 @@ func (p *LocalClearAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.DpClearResponse
 	select {
-	case finalResultMessage = <-finalResultClearAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/proofs_verification_protocol.go b/protocols/utils/proofs_verification_protocol.go
index 7cbf169..26fc50d 100644
--- a/protocols/utils/proofs_verification_protocol.go
+++ b/protocols/utils/proofs_verification_protocol.go
@@ -45,6 +45,9 @@ type ProofsVerificationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []bool
 
+	// Protocol result, from Start to Dispatch
+	finalResult chan []bool
+
 	// Protocol state data
 	TargetOfVerification ProofsToVerify
 }
@@ -54,13 +57,12 @@ func NewProofsVerificationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInsta
 	pvp := &ProofsVerificationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []bool),
+		finalResult:      make(chan []bool),
 	}
 
 	return pvp, nil
 }
 
-var finalResult = make(chan []bool)
-
 // Start is called at the root to start the execution of the key switching.
 func (p *ProofsVerificationProtocol) Start() error {
 
@@ -101,7 +103,7 @@ func (p *ProofsVerificationProtocol) Start() error {
 	result[5] = libunlynxaggr.AggregationListProofVerification(p.TargetOfVerification.CollectiveAggregationProofs, 1.0)
 	libunlynx.EndTimer(collectiveAggrTime)
 
-	finalResult <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -111,7 +113,7 @@ func (p *ProofsVerificationProtocol) Dispatch() error {
 
 	var finalResultMessage []bool
 	select {
-	case finalResultMessage = <-finalResult:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
-- 
2.43.0


From 833728f5726c16e84d76d75283f9858126657381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 09/48] fix: compare points and not their representations when
 a tag addition proof is verified

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 09bea34..964dbd1 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -3,7 +3,6 @@ package libunlynxdetertag
 import (
 	"fmt"
 	"math"
-	"reflect"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -248,7 +247,7 @@ func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) b
 	partProof = true
 
 	cv := libunlynx.SuiTe.Point().Add(psap.C1, psap.C2)
-	return partProof && reflect.DeepEqual(cv, psap.R)
+	return partProof && cv.Equal(psap.R)
 }
 
 // DeterministicTagAdditionListProofVerification verifies multiple deterministic tag addition proofs
-- 
2.43.0


From 7221eca1714ec84e784cba0b671c23c8c014aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 10/48] fix: verify no more add/remove proofs than there is
 room for results

---
 lib/add_rm/add_rm_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 817cafd..681b766 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -133,11 +133,11 @@ func AddRmListProofVerification(parp PublishedAddRmListProof, percent float64) b
 	results := make([]bool, nbrProofsToVerify)
 
 	var wg sync.WaitGroup
-	for i := 0; i < len(parp.List); i += libunlynx.VPARALLELIZE {
+	for i := 0; i < nbrProofsToVerify; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
 		go func(i int, krm kyber.Point, toadd bool) {
 			defer wg.Done()
-			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(parp.List); j++ {
+			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < nbrProofsToVerify; j++ {
 				results[i+j] = AddRmProofVerification(parp.List[i+j], krm, toadd)
 			}
 		}(i, parp.Krm, parp.ToAdd)
-- 
2.43.0


From 990801bbb6156da47bd0f2ca484fdca8af52de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 11/48] fix: aggregate clear responses that have neither
 grouping nor where attributes

---
 lib/store/store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index b94fbb9..3af47f6 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -192,7 +192,9 @@ func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 
 		//generate a unique tag and use it to aggregate the data
 		key := groupByClear + groupByEnc + whereClear + whereEnc
-		key = key[:len(key)-1]
+		if len(key) > 0 {
+			key = key[:len(key)-1]
+		}
 
 		// if the where matches (all 1s) -> filter responses
 		if len(elem.WhereClear) > 0 || len(elem.WhereEnc) > 0 {
-- 
2.43.0


From e3f5ebda5bb8e8cfa3b785b62bc4c47b197ea072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 12/48] fix: find negative integers below the part of the
 decryption table made without them

---
 lib/crypto.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index 9b85049..56c2850 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -23,6 +23,7 @@ const MaxHomomorphicInt int64 = 100000
 var PointToInt = concurrent.NewConcurrentMap()
 var currentGreatestM kyber.Point
 var currentGreatestInt int64
+var currentGreatestNeg int64 // the negative part of the table ends before -currentGreatestNeg
 var mutex = sync.Mutex{}
 
 // PublishedSimpleAdditionProof contains the two added ciphervectors and the resulting ciphervector
@@ -342,6 +343,17 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 	guessNeg := SuiTe.Point().Null()
 	guessIntMinus := int64(0)
 
+	// the table may have been extended without the negative integers
+	for ; checkNeg && currentGreatestNeg < currentGreatestInt && !foundNeg; currentGreatestNeg++ {
+		guessIntMinus = -currentGreatestNeg
+		guessNeg = SuiTe.Point().Mul(SuiTe.Scalar().SetInt64(guessIntMinus), B)
+		if _, err := PointToInt.Put(guessNeg.String(), guessIntMinus); err != nil {
+			mutex.Unlock()
+			return -1, err
+		}
+		foundNeg = guessNeg.Equal(P)
+	}
+
 	start := true
 	for i := guessInt; i < MaxHomomorphicInt && !foundPos && !foundNeg; i = i + 1 {
 		// check for 0 first
@@ -352,14 +364,17 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 
 		guessInt = i
 		if _, err := PointToInt.Put(guess.String(), guessInt); err != nil {
+			mutex.Unlock()
 			return -1, err
 		}
 		if checkNeg {
 			guessIntMinus = -guessInt
 			guessNeg = SuiTe.Point().Mul(SuiTe.Scalar().SetInt64(guessIntMinus), B)
 			if _, err := PointToInt.Put(guessNeg.String(), guessIntMinus); err != nil {
+				mutex.Unlock()
 				return -1, err
 			}
+			currentGreatestNeg = guessInt + 1
 
 			if guessNeg.Equal(P) {
 				foundNeg = true
-- 
2.43.0


From 7bc2fa21034b919c69a692eadaaa0d6a7302ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 13/48] fix: acknowledge an upload even if many data providers
 were faster

---
 services/service.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index 23d3dcd..bb6525c 100644
--- a/services/service.go
+++ b/services/service.go
@@ -346,8 +346,9 @@ func (s *Service) HandleSurveyResponseQuery(resp *SurveyResponseQuery) (network.
 		return nil, err
 	}
 
-	//number of data providers who have already pushed the data
-	survey.DpChannel <- 1
+	//number of data providers who have already pushed the data (do not keep the data provider waiting when the channel
+	//is full: it is only emptied once the results are asked for)
+	go func() { survey.DpChannel <- 1 }()
 	return &ServiceState{"1"}, nil
 }
 
-- 
2.43.0


From 08335791bf8a4b234f62d35de2fb98576109c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 14/48] fix: process a survey only once

---
 services/service.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/services/service.go b/services/service.go
index bb6525c..b53d1bc 100644
--- a/services/service.go
+++ b/services/service.go
@@ -61,6 +61,7 @@ type Survey struct {
 	TargetOfSwitch    []libunlynx.ProcessResponse
 
 	// channels
+	StartChannel  chan int // To process the survey only once
 	SurveyChannel chan int // To wait for the survey to be created before loading data
 	DpChannel     chan int // To wait for all data to be read before starting unlynx service protocol
 	DDTChannel    chan int // To wait for all nodes to finish the tagging before continuing
@@ -260,6 +261,7 @@ func (s *Service) HandleSurveyCreationQuery(recq *SurveyCreationQuery) (network.
 		SurveySecretKey:   surveySecret,
 		ShufflePrecompute: precomputeShuffle,
 
+		StartChannel:  make(chan int, 1),
 		SurveyChannel: make(chan int, 100),
 		DpChannel:     make(chan int, 100),
 		DDTChannel:    make(chan int, 100),
@@ -361,6 +363,13 @@ func (s *Service) HandleSurveyResultsQuery(resq *SurveyResultsQuery) (network.Me
 		return nil, err
 	}
 
+	// the responses and the <DDTfinished> of the servers are consumed by the processing: a second one would miss them
+	select {
+	case survey.StartChannel <- 1:
+	default:
+		return nil, fmt.Errorf(s.ServerIdentity().String() + " already processes the survey " + string(resq.SurveyID))
+	}
+
 	survey.Query.ClientPubKey = resq.ClientPublic
 	err = s.putSurvey(resq.SurveyID, survey)
 	if err != nil {
@@ -372,6 +381,8 @@ func (s *Service) HandleSurveyResultsQuery(resq *SurveyResultsQuery) (network.Me
 
 		err := libunlynxtools.SendISMOthers(s.ServiceProcessor, &survey.Query.Roster, resq)
 		if err != nil {
+			// nothing has been processed here: the querier can try again
+			<-survey.StartChannel
 			return nil, err
 		}
 		err = s.StartService(resq.SurveyID, true)
-- 
2.43.0


From a2729965645e6ab8afa89721c6e5d8d22f880823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 15/48] fix: keep the local aggregates for the aggregation of
 every querier

---
 lib/store/store.go  | 13 +++++++++++++
 services/service.go |  6 +-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 3af47f6..15a0869 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -174,6 +174,19 @@ func (s *Store) PullLocallyAggregatedResponses() map[libunlynx.GroupingKey]libun
 
 }
 
+// CopyLocallyAggregatedResponses returns the result of the local aggregation and keeps it in the store, as there is
+// one collective aggregation for each server that was asked for the results.
+func (s *Store) CopyLocallyAggregatedResponses() map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
+	result := make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse, len(s.LocAggregatedProcessResponse))
+	for k, v := range s.LocAggregatedProcessResponse {
+		result[k] = v
+	}
+	return result
+}
+
 func (s *Store) nextID() uint64 {
 	s.lastID++
 	return uint64(s.lastID)
diff --git a/services/service.go b/services/service.go
index b53d1bc..ceecf91 100644
--- a/services/service.go
+++ b/services/service.go
@@ -505,11 +505,7 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 		}
 
 		// waits for all other nodes to finish the tagging phase
-		groupedData := survey.PullLocallyAggregatedResponses()
-		err = s.putSurvey(target, survey)
-		if err != nil {
-			return nil, err
-		}
+		groupedData := survey.CopyLocallyAggregatedResponses()
 
 		collectiveAggr := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
 		collectiveAggr.GroupedData = &groupedData
-- 
2.43.0


From 30db8f7b510bed04404af23fcc30c0baab863dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 16/48] fix: refuse a predicate that cannot be evaluated
 instead of crashing or answering with nothing

---
 services/service.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/services/service.go b/services/service.go
index ceecf91..91ce30e 100644
--- a/services/service.go
+++ b/services/service.go
@@ -809,7 +809,10 @@ func (s *Service) TaggingPhase(targetSurvey SurveyID) error {
 	if survey.Query.Predicate == "" || len(queryWhereTag) == 0 {
 		filteredResponses = FilterNone(deterministicTaggingResult)
 	} else {
-		filteredResponses = FilterResponses(survey.Query.Predicate, queryWhereTag, deterministicTaggingResult)
+		filteredResponses, err = filterResponses(survey.Query.Predicate, queryWhereTag, deterministicTaggingResult)
+		if err != nil {
+			return err
+		}
 	}
 
 	survey.PushDeterministicFilteredResponses(filteredResponses, s.ServerIdentity().String(), survey.Query.Proofs)
@@ -898,11 +901,21 @@ func (s *Service) KeySwitchingPhase(targetSurvey SurveyID) error {
 
 // FilterResponses evaluates the predicate and keeps the entries that satisfy the conditions
 func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttributeTagged, responsesToFilter []libunlynx.ProcessResponseDet) []libunlynx.FilteredResponseDet {
+	result, err := filterResponses(pred, whereQueryValues, responsesToFilter)
+	if err != nil {
+		log.Error(err)
+	}
+	return result
+}
+
+// filterResponses evaluates the predicate and keeps the entries that satisfy the conditions, or returns an error when
+// the predicate cannot be evaluated (it comes from the querier)
+func filterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttributeTagged, responsesToFilter []libunlynx.ProcessResponseDet) ([]libunlynx.FilteredResponseDet, error) {
 	var result []libunlynx.FilteredResponseDet
 	for _, v := range responsesToFilter {
 		expression, err := govaluate.NewEvaluableExpression(pred)
 		if err != nil {
-			return result
+			return nil, fmt.Errorf("cannot parse the predicate %q: %v", pred, err)
 		}
 		parameters := make(map[string]interface{}, len(whereQueryValues)+len(responsesToFilter[0].DetTagWhere))
 		counter := 0
@@ -916,12 +929,19 @@ func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttribu
 			}
 
 		}
-		keep, err := expression.Evaluate(parameters)
-		if keep.(bool) {
+		value, err := expression.Evaluate(parameters)
+		if err != nil {
+			return nil, fmt.Errorf("cannot evaluate the predicate %q: %v", pred, err)
+		}
+		keep, ok := value.(bool)
+		if !ok {
+			return nil, fmt.Errorf("the predicate %q is neither true nor false", pred)
+		}
+		if keep {
 			result = append(result, libunlynx.FilteredResponseDet{DetTagGroupBy: v.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: v.PR.GroupByEnc, AggregatingAttributes: v.PR.AggregatingAttributes}})
 		}
 	}
-	return result
+	return result, nil
 }
 
 // FilterNone skips the filtering of attributes when there is no predicate (the number of where attributes == 0)
-- 
2.43.0


From 76cd89e6bfd2c04938cd83376685f7a931df8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 17/48] fix: store nothing of an upload that is refused

---
 services/service.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/services/service.go b/services/service.go
index 91ce30e..7811cd9 100644
--- a/services/service.go
+++ b/services/service.go
@@ -214,11 +214,15 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		return err
 	}
 
-	for _, v := range resp.Responses {
-		dr := libunlynx.DpResponse{}
-		if err := dr.FromDpResponseToSend(v); err != nil {
+	// an upload is stored either completely or, when it is refused, not at all
+	drs := make([]libunlynx.DpResponse, len(resp.Responses))
+	for i, v := range resp.Responses {
+		if err := drs[i].FromDpResponseToSend(v); err != nil {
 			return err
 		}
+	}
+
+	for _, dr := range drs {
 		// the store is shared by all copies of the survey: putting back this copy
 		// would undo a concurrent update of the survey (e.g. of the querier's key)
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
-- 
2.43.0


From 80c2188ead10cbfcb6ea679ead267bb8d21381bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:18 +0000
Subject: [PATCH 18/48] fix: replace files in one step, so that a crash or a
 full disk leaves no half-written file

---
 data/handle_data.go | 17 ++++++++---------
 lib/tools/tools.go  | 43 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 913b07f..24e2e49 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -3,6 +3,7 @@ package dataunlynx
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"math"
 	"math/rand"
 	"os"
@@ -171,16 +172,14 @@ func CreateInt64Slice(size int64, min int64, max int64) []int64 {
 
 // WriteDataToFile writes the testData to 'filename'.txt
 func WriteDataToFile(filename string, testData map[string][]libunlynx.DpClearResponse) error {
-	fileHandle, err := os.Create(filename)
-	if err != nil {
-		return err
-	}
+	return libunlynxtools.WriteToFile(filename, func(w io.Writer) error {
+		return writeData(w, testData)
+	})
+}
 
-	writer := bufio.NewWriter(fileHandle)
-	if err := writer.Flush(); err != nil {
-		return err
-	}
-	defer fileHandle.Close()
+// writeData writes the testData
+func writeData(w io.Writer, testData map[string][]libunlynx.DpClearResponse) error {
+	writer := bufio.NewWriter(w)
 
 	for k, v := range testData {
 		if _, err := fmt.Fprintln(writer, "#"+k); err != nil {
diff --git a/lib/tools/tools.go b/lib/tools/tools.go
index 0aa8f29..4b73b1e 100644
--- a/lib/tools/tools.go
+++ b/lib/tools/tools.go
@@ -4,7 +4,10 @@ import (
 	"encoding/binary"
 	"encoding/gob"
 	"fmt"
+	"io"
+	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 
@@ -107,17 +110,39 @@ func ConvertMapToData(data map[string]int64, first string, start int) []int64 {
 	return result
 }
 
-// WriteToGobFile stores object (e.g. lib.Enc_CipherVectorScalar) in a gob file. Note that the object must contain serializable stuff, for example byte arrays.
-func WriteToGobFile(path string, object interface{}) error {
-	file, err := os.Create(path)
-	defer file.Close()
+// WriteToFile replaces the content of a file with what write produces. Whatever happens meanwhile (a crash, a full disk,
+// another process that uses the file), the file has either its old content or all of the new one.
+func WriteToFile(path string, write func(io.Writer) error) error {
+	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".tmp")
+	if err != nil {
+		return err
+	}
 
+	err = write(file)
 	if err == nil {
-		encoder := gob.NewEncoder(file)
-		if err := encoder.Encode(object); err != nil {
-			return err
-		}
-	} else {
+		err = file.Chmod(0644)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), path)
+	}
+	if err != nil {
+		os.Remove(file.Name())
+	}
+	return err
+}
+
+// WriteToGobFile stores object (e.g. lib.Enc_CipherVectorScalar) in a gob file. Note that the object must contain serializable stuff, for example byte arrays.
+func WriteToGobFile(path string, object interface{}) error {
+	err := WriteToFile(path, func(w io.Writer) error {
+		return gob.NewEncoder(w).Encode(object)
+	})
+	if err != nil {
 		return fmt.Errorf("could not write Gob file: %v", err)
 	}
 
-- 
2.43.0


From 16daf5214bfa6f495187c885c09befbba11e70e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 19/48] fix: compute the blinding of the shuffle again when the
 stored one does not serve the survey

---
 lib/shuffle/shuffle.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/lib/shuffle/shuffle.go b/lib/shuffle/shuffle.go
index 2044f7a..54fc27c 100644
--- a/lib/shuffle/shuffle.go
+++ b/lib/shuffle/shuffle.go
@@ -154,22 +154,13 @@ func PrecomputationWritingForShuffling(appFlag bool, gobFile, serverName string,
 	log.Lvl1(serverName, " precomputes for shuffling")
 	var precomputeShuffle []CipherVectorScalar
 	if appFlag {
-		if _, err := os.Stat(gobFile); os.IsNotExist(err) {
+		var err error
+		precomputeShuffle, err = ReadPrecomputedFile(gobFile)
+		if err != nil || !usablePrecomputation(precomputeShuffle, collectiveKey, lineSize*2) {
 			precomputeShuffle, err = PrecomputeForShuffling(serverName, gobFile, surveySecret, collectiveKey, lineSize)
 			if err != nil {
 				return nil, err
 			}
-		} else {
-			var encoded []CipherVectorScalarBytes
-			err := libunlynxtools.ReadFromGobFile(gobFile, &encoded)
-			if err != nil {
-				return nil, err
-			}
-
-			precomputeShuffle, err = DecodeCipherVectorScalar(encoded)
-			if err != nil {
-				return nil, err
-			}
 		}
 	} else {
 		scalarBytes, err := surveySecret.MarshalBinary()
@@ -181,6 +172,20 @@ func PrecomputationWritingForShuffling(appFlag bool, gobFile, serverName string,
 	return precomputeShuffle, nil
 }
 
+// usablePrecomputation tells if precomputed values (of a file written for another survey) serve a survey with this
+// collective key and with lines of this size
+func usablePrecomputation(precomputed []CipherVectorScalar, collectiveKey kyber.Point, lineSize int) bool {
+	for _, line := range precomputed {
+		if len(line.S) < lineSize || len(line.CipherV) != len(line.S) {
+			return false
+		}
+		if !line.CipherV[0].C.Equal(libunlynx.SuiTe.Point().Mul(line.S[0], collectiveKey)) {
+			return false
+		}
+	}
+	return len(precomputed) > 0
+}
+
 // ReadPrecomputedFile reads the precomputation data from a .gob file
 func ReadPrecomputedFile(fileName string) ([]CipherVectorScalar, error) {
 	if _, err := os.Stat(fileName); !os.IsNotExist(err) {
-- 
2.43.0


From 99ff68bd73a7ae9d76d4163b7b292142b21946a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 20/48] fix: decrypt a negative integer the same way whatever
 was decrypted before

---
 lib/crypto.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index 56c2850..08030b5 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -328,6 +328,11 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 	decrypted, ok := PointToInt.Get(P.String())
 	if ok == nil && decrypted != nil {
 		mutex.Unlock()
+		if decrypted.(int64) < 0 && !checkNeg {
+			// only known from another decryption: the result must not depend on what was decrypted before
+			log.Error("out of bound encryption, negative integers are not asked for")
+			return 0, nil
+		}
 		return decrypted.(int64), nil
 	}
 
-- 
2.43.0


From 3b1cb899c269a0e39127ecaa77d649e79b556843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 21/48] fix: reject a shuffle proof with a missing row instead
 of panicking

---
 lib/shuffle/shuffle_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index e0873b0..7a426db 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -137,6 +137,12 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
+	// the verifier of a shuffle panics on these instead of rejecting them
+	if len(psp.OriginalList) < 2 || len(psp.OriginalList) != len(psp.ShuffledList) {
+		log.Lvl1("-----------verify failed (inconsistent lengths)")
+		return false
+	}
+
 	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
-- 
2.43.0


From 340149c397b7ab2639141063683012b48db3cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 22/48] fix: sum an empty vector of ciphertexts to zero instead
 of panicking

---
 lib/crypto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index 08030b5..70edd89 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -480,6 +480,9 @@ func (cv *CipherVector) Equal(cv2 *CipherVector) bool {
 
 // Acum adds all elements in a ciphervector
 func (cv *CipherVector) Acum() CipherText {
+	if len(*cv) == 0 {
+		return *NewCipherText()
+	}
 	acum := (*cv)[0]
 	for i := 1; i < len(*cv); i++ {
 		acum.Add(acum, (*cv)[i])
-- 
2.43.0


From ea4a866ecb9360dd50241c4288beb4fdeb82577d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 23/48] fix: read group attributes of more than one character
 from a grouping key

---
 lib/structs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/structs.go b/lib/structs.go
index 0e1a733..e6b0b2d 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -212,7 +212,7 @@ func UnKey(gk GroupingKey) ([]int64, error) {
 	nbrString := make([]string, 1)
 	for _, a := range gk {
 		if a != ',' {
-			nbrString[0] = string(a)
+			nbrString = append(nbrString, string(a))
 		} else {
 			key, err := strconv.Atoi(strings.Join(nbrString, ""))
 			if err != nil {
-- 
2.43.0


From 9eebbdc77717db4e2d20a6d95184192399db7594 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 24/48] fix: decode a tagged response that has a group tag or
 no where tags

---
 lib/structs.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index e6b0b2d..3c533f3 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -412,12 +412,14 @@ func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pga
 	aab := data[gacbByteLength : gacbByteLength+aabByteLength]
 	pgaeb := data[gacbByteLength+aabByteLength : gacbByteLength+aabByteLength+pgaebByteLength]
 	dtbgb := data[gacbByteLength+aabByteLength+pgaebByteLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength]
-	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbgbLength+dtbwLength]
+	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbwLength]
 
 	(*crd).DetTagGroupBy = GroupingKey(string(dtbgb))
 	(*crd).DetTagWhere = make([]GroupingKey, 0)
-	for _, key := range strings.Split(string(dtbw), SEPARATOR) {
-		(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+	if dtbwLength > 0 {
+		for _, key := range strings.Split(string(dtbw), SEPARATOR) {
+			(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+		}
 	}
 	err := (*crd).PR.AggregatingAttributes.FromBytes(aab, aabLength)
 	if err != nil {
-- 
2.43.0


From 35907931e07f486314173dc32130ea67f4a7e253 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 25/48] fix: generate test data that covers all possible groups

---
 data/handle_data.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 24e2e49..93d77e3 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -83,6 +83,7 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 
 	testData := make(map[string][]libunlynx.DpClearResponse)
 
+	groups := make([][]int64, 0)
 	if !randomGroups {
 		numElem := 1
 		for _, el := range numType {
@@ -90,7 +91,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 
 		if int64(numElem) == numEntries {
-			groups := make([][]int64, 0)
 			group := make([]int64, 0)
 			AllPossibleGroups(numType[:], group, 0, &groups)
 		} else {
@@ -98,7 +98,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 	}
 
-	groups := make([][]int64, 0)
 	for i := int64(0); i < numDPs; i++ {
 		dpData := make([]libunlynx.DpClearResponse, numEntries)
 
-- 
2.43.0


From 4bb2678802c041aedf727ad8e659d16f5ac1e01b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 26/48] fix: take no more and no fewer responses for the same
 when they are compared

---
 data/handle_data.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 93d77e3..e5316af 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -344,10 +344,18 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 // CompareClearResponses compares two DP ClearResponse arrays and returns true if they are the same or false otherwise
 func CompareClearResponses(x []libunlynx.DpClearResponse, y []libunlynx.DpClearResponse) bool {
-	var test bool
+	if len(x) != len(y) {
+		return false
+	}
+
+	test := true
+	matched := make([]bool, len(y)) // a response of y stands for one response of x only
 	for _, i := range x {
 		test = false
-		for _, j := range y {
+		for pos, j := range y {
+			if matched[pos] {
+				continue
+			}
 			if (reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
 				(reflect.DeepEqual(i.GroupByEnc, j.GroupByEnc) || (len(i.GroupByEnc) == 0 && len(j.GroupByEnc) == 0)) &&
 				(reflect.DeepEqual(i.WhereClear, j.WhereClear) || (len(i.WhereClear) == 0 && len(j.WhereClear) == 0)) &&
@@ -356,6 +364,7 @@ func CompareClearResponses(x []libunlynx.DpClearResponse, y []libunlynx.DpClearR
 				(reflect.DeepEqual(i.AggregatingAttributesEnc, j.AggregatingAttributesEnc) || (len(i.AggregatingAttributesEnc) == 0 && len(j.AggregatingAttributesEnc) == 0)) {
 
 				test = true
+				matched[pos] = true
 				break
 			}
 		}
-- 
2.43.0


From 15231e742581202c6458d97c3fbf090f05251586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 27/48] fix: refuse a query that cannot be parsed instead of
 asking an empty one

The error of parseQuery was overwritten, and the client asked for no attribute at all.
---
 cmd/unlynx/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 7709fff..6379df1 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -61,6 +61,7 @@ func runUnLynx(c *cli.Context) {
 	log.ErrFatal(err, "Could not open group toml.")
 
 	sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal, err := parseQuery(el, sum, count, whereQueryValues, predicate, groupBy)
+	log.ErrFatal(err, "Could not parse the query.")
 
 	err = startQuery(el, proofs, sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal)
 	log.ErrFatal(err)
-- 
2.43.0


From 4cff4676a09cb36b6a281dc9830f1519b92c0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 28/48] fix: accept the count among the attributes of the sum

A count query needs "count" in the list, where the expression did not allow it.
---
 cmd/unlynx/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 6379df1..233d469 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -95,7 +95,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		return nil, false, nil, "", nil, fmt.Errorf("wrong query! please check the sum, where and the predicate parameters")
 	}
 
-	sumRegex := "{s[0-9]+(,\\s*s[0-9]+)*}"
+	sumRegex := "{(s[0-9]+|count)(,\\s*(s[0-9]+|count))*}"
 	whereRegex := "{(w[0-9]+(,\\s*[0-9]+))*(,\\s*w[0-9]+(,\\s*[0-9]+))*}"
 	groupByRegex := "{g[0-9]+(,\\s*g[0-9]+)*}"
 
-- 
2.43.0


From ff26b275926c2fd2efb662cb48621791c921132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 29/48] fix: accept a query without conditions or groups

Both are optional, as a where without value passes the first check, but an empty list was refused.
---
 cmd/unlynx/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 233d469..a7c762e 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -120,7 +120,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		}
 	}
 
-	if !checkRegex(where, whereRegex) {
+	if where != "" && !checkRegex(where, whereRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the where parameter(s)")
 	}
 	where = strings.Replace(where, " ", "", -1)
@@ -145,6 +145,9 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		}
 	}
 
+	if groupBy == "" {
+		return sumFinal, count, whereFinal, predicate, []string{}, nil
+	}
 	if !checkRegex(groupBy, groupByRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the groupBy parameter(s)")
 	}
-- 
2.43.0


From 7705828d80b9dd4761b934bab01cbebb0237e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 30/48] fix: report a group file without servers instead of
 panicking

There is no roster for an empty list of servers.
---
 cmd/unlynx/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index a7c762e..77c3f64 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -77,7 +77,7 @@ func openGroupToml(tomlFileName string) (*onet.Roster, error) {
 		return nil, err
 	}
 
-	if len(el.Roster.List) <= 0 {
+	if el.Roster == nil || len(el.Roster.List) <= 0 {
 		return nil, fmt.Errorf("empty or invalid unlynx group file: %v", tomlFileName)
 	}
 
-- 
2.43.0


From 10021d13edfbb649cd41321042e98c67bb6a5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 31/48] fix: prove every element of a list of tag additions

Every goroutine made the proofs of its part of the list for the first element
of that part.
---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 964dbd1..4066f81 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -208,10 +208,10 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 	var wg sync.WaitGroup
 	for i := 0; i < nbrProofsToCreate; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
-		go func(i int, c1 kyber.Point, s kyber.Scalar, c2 kyber.Point, r kyber.Point) {
+		go func(i int) {
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < nbrProofsToCreate); j++ {
-				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1, s, c2, r)
+				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1List[i+j], sList[i+j], c2List[i+j], rList[i+j])
 				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
@@ -220,7 +220,7 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 				}
 				listProofs.List[i+j] = proofAux
 			}
-		}(i, c1List[i], sList[i], c2List[i], rList[i])
+		}(i)
 
 	}
 	wg.Wait()
-- 
2.43.0


From 9d993265b4a43b621a1e5054189bfd5b00ff3151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 32/48] fix: report an error of the creation of a tag proof

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 4066f81..5a0262b 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -101,7 +101,7 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(vBef)); j++ {
 				proofAux, tmpErr := DeterministicTagCrProofCreation(vBef[i+j], vAft[i+j], K, k, s)
-				if err != nil {
+				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
 					mutex.Unlock()
-- 
2.43.0


From d6062fe029c6d46af6f4ae94e68972ee385e8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 33/48] fix: make the tag proofs of the protocols with the
 secrets in order

The private key and the secret of the survey were swapped, so that none of
these proofs verifies.
---
 protocols/deterministic_tagging_protocol.go | 2 +-
 protocols/shuffling+ddt_protocol.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index a457f8c..9817672 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -310,7 +310,7 @@ func sendingDet(p DeterministicTaggingProtocol, detTarget DeterministicTaggingMe
 func TaggingDet(cv *libunlynx.CipherVector, privKey, secretContrib kyber.Scalar, pubKey kyber.Point, proofs bool) error {
 	switchedVect := libunlynxdetertag.DeterministicTagSequence(*cv, privKey, secretContrib)
 	if proofs {
-		_, err := libunlynxdetertag.DeterministicTagCrListProofCreation(*cv, switchedVect, pubKey, secretContrib, privKey)
+		_, err := libunlynxdetertag.DeterministicTagCrListProofCreation(*cv, switchedVect, pubKey, privKey, secretContrib)
 		if err != nil {
 			return err
 		}
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 369d0ac..7faad04 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -238,7 +238,7 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 				vBef := shuffledData[i+j]
 				vAft := libunlynxdetertag.DeterministicTagSequence(vBef, p.Private(), *p.SurveySecretKey)
 				if p.Proofs {
-					_, tmpErr := libunlynxdetertag.DeterministicTagCrListProofCreation(vBef, vAft, p.Public(), *p.SurveySecretKey, p.Private())
+					_, tmpErr := libunlynxdetertag.DeterministicTagCrListProofCreation(vBef, vAft, p.Public(), p.Private(), *p.SurveySecretKey)
 					if tmpErr != nil {
 						mutex.Lock()
 						err = tmpErr
-- 
2.43.0


From 609cd61ae0a608de6384e48d022265c08762dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 34/48] fix: check the intermediate point of a tag proof

It was taken from the proof as it is, so that a server could prove a tag it
made with any other point.
---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 5a0262b..7c3f54a 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -133,6 +133,12 @@ func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB ky
 	ci2 := prf.CTaft.C
 	ciminus12 := prf.CTbef.C
 
+	// the proof is about this point only if it is what the creation computes
+	if !prf.Ciminus11Si.Equal(libunlynx.SuiTe.Point().Neg(ci1)) {
+		log.Error("---------Verifier: inconsistent intermediate point")
+		return false
+	}
+
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": prf.Ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1, "SB": SB}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, prf.Proof); err != nil {
-- 
2.43.0


From f3f76baff30c8d4fad7418f84bdac33d06c8b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 35/48] fix: reject the proof of a server change that alters
 the whole ciphertext

Only the second part of the ciphertext was looked at.
---
 lib/add_rm/add_rm_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 681b766..8f79921 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -108,6 +108,12 @@ func AddRmListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k
 
 // AddRmProofVerification verifies an add/rm proof
 func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) bool {
+	// adding or removing a server leaves the first part of a ciphertext as it is
+	if !cp.CtAft.K.Equal(cp.CtBef.K) || !cp.RB.Equal(cp.CtBef.K) {
+		log.Error("---------Verifier: the first part of the ciphertext changed")
+		return false
+	}
+
 	predicate := createPredicateAddRm()
 	B := libunlynx.SuiTe.Point().Base()
 	c2 := libunlynx.SuiTe.Point()
-- 
2.43.0


From 92cc566ebd4b87d0274b4634e25d4ae7ad8fc113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 36/48] fix: make the challenge of a proof depend on what the
 proof is about

Only the commitments were hashed, so that the last point of a statement could be
chosen after the challenge: a server could prove a key switching, a tag, an
addition or a server change with any result.
---
 lib/add_rm/add_rm_proofs.go                   | 17 ++++++++--
 lib/crypto.go                                 | 15 +++++++++
 .../deterministic_tag_proofs.go               | 33 ++++++++++++++++---
 lib/key_switch/key_switch_proofs.go           | 15 +++++++--
 4 files changed, 71 insertions(+), 9 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 8f79921..f125333 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -58,11 +58,16 @@ func AddRmProofCreation(cBef, cAft libunlynx.CipherText, K kyber.Point, k kyber.
 
 	rB := cBef.K
 
+	name, err := libunlynx.ProofName(K, cBef.K, cBef.C, cAft.K, cAft.C)
+	if err != nil {
+		return PublishedAddRmProof{}, fmt.Errorf("---------prover: %v", err)
+	}
+
 	sval := map[string]kyber.Scalar{"k": k}
 	pval := map[string]kyber.Point{"B": B, "Krm": K, "c2": c2, "rB": rB}
 
 	prover := predicate.Prover(libunlynx.SuiTe, sval, pval, nil) // computes: commitment, challenge, response
-	proofTmp, err := proof.HashProve(libunlynx.SuiTe, "proofTest", prover)
+	proofTmp, err := proof.HashProve(libunlynx.SuiTe, name, prover)
 
 	if err != nil {
 		return PublishedAddRmProof{}, fmt.Errorf("---------prover: %v", err)
@@ -108,8 +113,14 @@ func AddRmListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k
 
 // AddRmProofVerification verifies an add/rm proof
 func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) bool {
+	name, err := libunlynx.ProofName(K, cp.CtBef.K, cp.CtBef.C, cp.CtAft.K, cp.CtAft.C)
+	if err != nil {
+		log.Error("---------Verifier:", err.Error())
+		return false
+	}
+
 	// adding or removing a server leaves the first part of a ciphertext as it is
-	if !cp.CtAft.K.Equal(cp.CtBef.K) || !cp.RB.Equal(cp.CtBef.K) {
+	if !cp.CtAft.K.Equal(cp.CtBef.K) || cp.RB == nil || !cp.RB.Equal(cp.CtBef.K) {
 		log.Error("---------Verifier: the first part of the ciphertext changed")
 		return false
 	}
@@ -125,7 +136,7 @@ func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) b
 
 	pval := map[string]kyber.Point{"B": B, "Krm": K, "c2": c2, "rB": cp.CtBef.K}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
-	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, cp.Proof); err != nil {
+	if err := proof.HashVerify(libunlynx.SuiTe, name, verifier, cp.Proof); err != nil {
 		log.Error("---------Verifier:", err.Error())
 		return false
 	}
diff --git a/lib/crypto.go b/lib/crypto.go
index 70edd89..8894d15 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -717,6 +717,21 @@ func DeserializeScalar(encodedScalar string) (kyber.Scalar, error) {
 	return scalar, nil
 }
 
+// ProofName names a proof about the given points. The challenge of the proof depends on its name, and thus on everything
+// the proof is about: none of these points can be chosen after the challenge is known.
+func ProofName(points ...kyber.Point) (string, error) {
+	for _, p := range points {
+		if p == nil {
+			return "", fmt.Errorf("a point of the proof is missing")
+		}
+	}
+	data, err := AbstractPointsToBytes(points)
+	if err != nil {
+		return "", err
+	}
+	return "proofTest" + string(data), nil
+}
+
 // AbstractPointsToBytes converts an array of kyber.Point to a byte array
 func AbstractPointsToBytes(aps []kyber.Point) ([]byte, error) {
 	var err error
diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 7c3f54a..419f6be 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -75,11 +75,18 @@ func DeterministicTagCrProofCreation(ctBef, ctAft libunlynx.CipherText, K kyber.
 	ciminus11Si := libunlynx.SuiTe.Point().Neg(libunlynx.SuiTe.Point().Mul(s, ciminus11))
 	B := libunlynx.SuiTe.Point().Base()
 
+	SB := libunlynx.SuiTe.Point().Mul(s, B)
+
+	name, err := libunlynx.ProofName(K, SB, ciminus11Si, ctBef.K, ctBef.C, ctAft.K, ctAft.C)
+	if err != nil {
+		return PublishedDDTCreationProof{}, fmt.Errorf("---------prover: %v", err)
+	}
+
 	sval := map[string]kyber.Scalar{"k": k, "s": s}
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1}
 
 	prover := predicate.Prover(libunlynx.SuiTe, sval, pval, nil) // computes: commitment, challenge, response
-	Proof, err := proof.HashProve(libunlynx.SuiTe, "proofTest", prover)
+	Proof, err := proof.HashProve(libunlynx.SuiTe, name, prover)
 	if err != nil {
 		return PublishedDDTCreationProof{}, fmt.Errorf("---------prover: %v", err)
 	}
@@ -126,6 +133,12 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 
 // DeterministicTagCrProofVerification verifies a deterministic tag proof for one ciphertext
 func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB kyber.Point) bool {
+	name, err := libunlynx.ProofName(K, SB, prf.Ciminus11Si, prf.CTbef.K, prf.CTbef.C, prf.CTaft.K, prf.CTaft.C)
+	if err != nil {
+		log.Error("---------Verifier:", err.Error())
+		return false
+	}
+
 	predicate := createPredicateDeterministicTagCr()
 	B := libunlynx.SuiTe.Point().Base()
 	ci1 := prf.CTaft.K
@@ -141,7 +154,7 @@ func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB ky
 
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": prf.Ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1, "SB": SB}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
-	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, prf.Proof); err != nil {
+	if err := proof.HashVerify(libunlynx.SuiTe, name, verifier, prf.Proof); err != nil {
 		log.Error("---------Verifier:", err.Error())
 		return false
 	}
@@ -190,11 +203,17 @@ func createPredicateDeterministicTagAddition() (predicate proof.Predicate) {
 func DeterministicTagAdditionProofCreation(c1 kyber.Point, s kyber.Scalar, c2 kyber.Point, r kyber.Point) (PublishedDDTAdditionProof, error) {
 	predicate := createPredicateDeterministicTagAddition()
 	B := libunlynx.SuiTe.Point().Base()
+
+	name, err := libunlynx.ProofName(c1, c2, r)
+	if err != nil {
+		return PublishedDDTAdditionProof{}, fmt.Errorf("---------prover: %v", err)
+	}
+
 	sval := map[string]kyber.Scalar{"s": s}
 	pval := map[string]kyber.Point{"B": B, "c1": c1, "c2": c2, "r": r}
 
 	prover := predicate.Prover(libunlynx.SuiTe, sval, pval, nil) // computes: commitment, challenge, response
-	Proof, err := proof.HashProve(libunlynx.SuiTe, "proofTest", prover)
+	Proof, err := proof.HashProve(libunlynx.SuiTe, name, prover)
 	if err != nil {
 		return PublishedDDTAdditionProof{}, fmt.Errorf("---------prover: %v", err)
 	}
@@ -240,12 +259,18 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 
 // DeterministicTagAdditionProofVerification verifies a deterministic tag addition proof
 func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) bool {
+	name, err := libunlynx.ProofName(psap.C1, psap.C2, psap.R)
+	if err != nil {
+		log.Error("---------Verifier:", err.Error())
+		return false
+	}
+
 	predicate := createPredicateDeterministicTagAddition()
 	B := libunlynx.SuiTe.Point().Base()
 	pval := map[string]kyber.Point{"B": B, "c1": psap.C1, "c2": psap.C2, "r": psap.R}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 	partProof := false
-	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, psap.Proof); err != nil {
+	if err := proof.HashVerify(libunlynx.SuiTe, name, verifier, psap.Proof); err != nil {
 		log.Error("---------Verifier:", err.Error())
 		return false
 	}
diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index ff5ae54..2190c06 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -65,8 +65,13 @@ func KeySwitchProofCreation(K, Q kyber.Point, k kyber.Scalar, viB, ks2, rBNeg ky
 	sval := map[string]kyber.Scalar{"vi": vi, "k": k}
 	pval := map[string]kyber.Point{"K": K, "viB": viB, "ks2": ks2, "rBNeg": rBNeg, "Q": Q}
 
+	name, err := libunlynx.ProofName(K, viB, ks2, rBNeg, Q)
+	if err != nil {
+		return PublishedKSProof{}, fmt.Errorf("---------prover: %v", err)
+	}
+
 	prover := predicate.Prover(libunlynx.SuiTe, sval, pval, nil) // computes: commitment, challenge, response
-	proofKS, err := proof.HashProve(libunlynx.SuiTe, "proofTest", prover)
+	proofKS, err := proof.HashProve(libunlynx.SuiTe, name, prover)
 	if err != nil {
 		return PublishedKSProof{}, fmt.Errorf("---------prover: %v", err)
 	}
@@ -125,11 +130,17 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 
 // KeySwitchProofVerification verifies a key switch proof for one ciphertext
 func KeySwitchProofVerification(pop PublishedKSProof) bool {
+	name, err := libunlynx.ProofName(pop.K, pop.ViB, pop.Ks2, pop.RbNeg, pop.Q)
+	if err != nil {
+		log.Error("---------Verifier:", err.Error())
+		return false
+	}
+
 	predicate := createPredicateKeySwitch()
 	pval := map[string]kyber.Point{"K": pop.K, "viB": pop.ViB, "ks2": pop.Ks2, "rBNeg": pop.RbNeg, "Q": pop.Q}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 
-	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, pop.Proof); err != nil {
+	if err := proof.HashVerify(libunlynx.SuiTe, name, verifier, pop.Proof); err != nil {
 		log.Error("---------Verifier:", err.Error())
 		return false
 	}
-- 
2.43.0


From 7d513c53668edc573c7ea28e22a4f71bcbc5f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 37/48] fix: reject the proof of a shuffle for another base or
 key

Both were taken from the proof as they are.
---
 lib/shuffle/shuffle_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 7a426db..5e4da10 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -143,6 +143,12 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 		return false
 	}
 
+	// a shuffle for another base or another key decrypts to something else
+	if psp.G == nil || psp.H == nil || !psp.G.Equal(libunlynx.SuiTe.Point().Base()) || !psp.H.Equal(seed) {
+		log.Lvl1("-----------verify failed (other base or key)")
+		return false
+	}
+
 	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
-- 
2.43.0


From 88a1fb0862a1a3b612d43f33b6f81fae702535c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 38/48] fix: let the proof of a shuffle depend on both lists

What the columns are multiplied with depended on the first row alone: a server
that knew it could alter two columns of a shuffled row in a way that makes up
for each other.
---
 lib/shuffle/shuffle_proofs.go | 47 ++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 5e4da10..cd55d1e 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -45,7 +45,11 @@ type PublishedShufflingListProof struct {
 
 // ShuffleProofCreation creates a shuffle proof
 func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
-	e, err := CipherVectorComputeE(h, originalList[0])
+	statement, err := shuffleStatement(h, originalList, shuffledList)
+	if err != nil {
+		return PublishedShufflingProof{}, err
+	}
+	e, err := CipherVectorComputeE(statement, originalList[0])
 	if err != nil {
 		return PublishedShufflingProof{}, err
 	}
@@ -93,7 +97,7 @@ func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g
 		return ps.Prove(pi, nil, h, betaCompressed, Xhat, Yhat, rand, ctx)
 	}
 
-	prf, err := proof.HashProve(libunlynx.SuiTe, "PairShuffle", prover)
+	prf, err := proof.HashProve(libunlynx.SuiTe, shuffleName(statement), prover)
 	if err != nil {
 		return PublishedShufflingProof{}, fmt.Errorf("shuffle proof failed: %v", err)
 	}
@@ -149,7 +153,13 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 		return false
 	}
 
-	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
+	statement, err := shuffleStatement(seed, psp.OriginalList, psp.ShuffledList)
+	if err != nil {
+		log.Error(err)
+		log.Lvl1("-----------verify failed (statement)")
+		return false
+	}
+	e, err := CipherVectorComputeE(statement, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
 		log.Lvl1("-----------verify failed (with XhaBar)")
@@ -194,7 +204,7 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 	}
 
 	verifier := shuffleKyber.Verifier(libunlynx.SuiTe, psp.G, psp.H, x, y, xbar, ybar)
-	err = proof.HashVerify(libunlynx.SuiTe, "PairShuffle", verifier, psp.HashProof)
+	err = proof.HashVerify(libunlynx.SuiTe, shuffleName(statement), verifier, psp.HashProof)
 	if err != nil {
 		log.Error(err)
 		log.Lvl1("-----------verify failed (with XhaBar)")
@@ -229,6 +239,35 @@ func ShuffleListProofVerification(pslp PublishedShufflingListProof, seed kyber.P
 	return finalResult
 }
 
+// shuffleStatement maps the key and both lists of a shuffle to a point. The e's and the challenges of the proof depend on
+// it, so that no ciphertext can be chosen to fit them.
+func shuffleStatement(h kyber.Point, originalList, shuffledList []libunlynx.CipherVector) (kyber.Point, error) {
+	data, err := h.MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+	xof := libunlynx.SuiTe.XOF(data)
+
+	for _, list := range [][]libunlynx.CipherVector{originalList, shuffledList} {
+		data, lengths, err := libunlynx.ArrayCipherVectorToBytes(list)
+		if err != nil {
+			return nil, err
+		}
+		if _, err := xof.Write(lengths); err != nil {
+			return nil, err
+		}
+		if _, err := xof.Write(data); err != nil {
+			return nil, err
+		}
+	}
+	return libunlynx.SuiTe.Point().Pick(xof), nil
+}
+
+// shuffleName names the proof of a shuffle
+func shuffleName(statement kyber.Point) string {
+	return "PairShuffle" + statement.String()
+}
+
 // CipherVectorComputeE computes all the e's for a ciphervector based on a seed h
 func CipherVectorComputeE(h kyber.Point, cv libunlynx.CipherVector) ([]kyber.Scalar, error) {
 	var err error
-- 
2.43.0


From d3e1c47f717b581f435690bde8a2958694f35d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 39/48] fix: multiply the columns of a shuffle differently

Two columns with the same ciphertext in the first row had the same e: values
could be moved from one to the other in a shuffled row.
---
 lib/shuffle/shuffle_proofs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index cd55d1e..a87816e 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -315,6 +315,11 @@ func computeE(index int, cv libunlynx.CipherVector, seed []byte) (kyber.Scalar,
 
 	randomCipher := libunlynx.SuiTe.XOF(seed)
 
+	// two columns that are the same in the first row have different e's
+	if _, err := randomCipher.Write([]byte(fmt.Sprintf("column %d", index))); err != nil {
+		return nil, err
+	}
+
 	dataC, err := cv[index].C.MarshalBinary()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2d42432980bf6d4f56502ea8f6ac6ea9dc4f4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 40/48] fix: take the noise of a survey from the shuffled list
 of noise values

The list was cut as the responses of the survey are: the server panicked in every
survey with obfuscated results.
---
 services/service.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/services/service.go b/services/service.go
index 7811cd9..dd9cb7c 100644
--- a/services/service.go
+++ b/services/service.go
@@ -560,7 +560,7 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 				clientResponses = append(clientResponses, libunlynx.ProcessResponse{GroupByEnc: nil, AggregatingAttributes: libunlynx.IntArrayToCipherVector([]int64{int64(v)})})
 			}
 			var toShuffleCV []libunlynx.CipherVector
-			toShuffleCV, survey.Lengths = protocolsunlynx.ProcessResponseToMatrixCipherText(clientResponses)
+			toShuffleCV, _ = protocolsunlynx.ProcessResponseToMatrixCipherText(clientResponses)
 			shuffle.ShuffleTarget = &toShuffleCV
 		}
 		return pi, nil
@@ -867,9 +867,8 @@ func (s *Service) DROPhase(targetSurvey SurveyID) error {
 		return fmt.Errorf(s.ServerIdentity().String() + " didn't get the <tmpShufflingResult> on time")
 	}
 
-	shufflingResult := protocolsunlynx.MatrixCipherTextToProcessResponse(tmpShufflingResult, survey.Lengths)
-
-	survey.Noise = shufflingResult[0].AggregatingAttributes[0]
+	// every row of the list is one noise value
+	survey.Noise = tmpShufflingResult[0][0]
 	err = s.putSurvey(targetSurvey, survey)
 	return err
 }
-- 
2.43.0


From 544edf4a5aced029c80229859279defe5fa1b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 41/48] fix: add the noise to the obfuscated results

It was added to copies of the aggregated values.
---
 lib/store/store.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 15a0869..279c3d1 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -295,16 +295,23 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 	s.GroupedDeterministicFilteredResponses = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 
 	if diffPri {
-		for _, v := range aggregatedResults {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		addNoise(aggregatedResults, noise)
 	}
 
 	return aggregatedResults
 }
 
+// addNoise adds the noise to every aggregated value of the results.
+func addNoise(results []libunlynx.FilteredResponse, noise libunlynx.CipherText) {
+	for i, v := range results {
+		noisy := make(libunlynx.CipherVector, len(v.AggregatingAttributes))
+		for j, aggr := range v.AggregatingAttributes {
+			noisy[j].Add(aggr, noise)
+		}
+		results[i].AggregatingAttributes = noisy
+	}
+}
+
 // PushQuerierKeyEncryptedResponses handles the reception of the key switched (for the querier) results.
 func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx.FilteredResponse) {
 	s.DeliverableResults = keySwitchedResponse
@@ -316,11 +323,7 @@ func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText)
 	s.DeliverableResults = s.DeliverableResults[:0]
 
 	if diffPri {
-		for _, v := range results {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		addNoise(results, noise)
 	}
 
 	return results
-- 
2.43.0


From cf74f09d16036d0345f51bf74935691e89d9b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 42/48] fix: decrypt the negative values of an answer

The querier got 0 for every sum (and every value of a group) below 0.
---
 services/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/api.go b/services/api.go
index 837637e..b8ed07a 100644
--- a/services/api.go
+++ b/services/api.go
@@ -96,8 +96,8 @@ func (c *API) SendSurveyResultsQuery(surveyID SurveyID) (*[][]int64, *[][]int64,
 	grp := make([][]int64, len(resp.Results))
 	aggr := make([][]int64, len(resp.Results))
 	for i, res := range resp.Results {
-		grp[i] = libunlynx.DecryptIntVector(c.private, &res.GroupByEnc)
-		aggr[i] = libunlynx.DecryptIntVector(c.private, &res.AggregatingAttributes)
+		grp[i] = libunlynx.DecryptIntVectorWithNeg(c.private, &res.GroupByEnc)
+		aggr[i] = libunlynx.DecryptIntVectorWithNeg(c.private, &res.AggregatingAttributes)
 	}
 	return &grp, &aggr, nil
 }
-- 
2.43.0


From 121735f35bf35a72a5f39fde53697916cd42ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 43/48] fix: keep the responses that were pulled from the store
 apart from later ones

PullDpResponses kept the array of the responses it returned: a response that was
uploaded right afterwards overwrote the first one before it was shuffled, so that an
acknowledged upload was missing from the answer.
---
 lib/store/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 279c3d1..5dc96f3 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -120,7 +120,7 @@ func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
 	}
-	s.DpResponses = s.DpResponses[:0] //clear table
+	s.DpResponses = nil // clear table (later responses must not overwrite those that were pulled)
 	return result
 }
 
-- 
2.43.0


From 39113e99d7da68eee56b96e4e016d37c678eb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 44/48] fix: store an upload as a whole

The responses of an upload were inserted one by one: results that were computed at
the same time counted a part of an upload that is acknowledged as a whole.
---
 lib/store/store.go  | 19 +++++++++++++++----
 services/service.go |  8 +++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 5dc96f3..7144335 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -66,6 +66,21 @@ func proccessParameters(data []string, clear map[string]int64, encrypted map[str
 
 // InsertDpResponse handles the local storage of a new DP response in aggregation or grouping cases.
 func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy, sum []string, where []libunlynx.WhereQueryAttribute) {
+	s.InsertDpResponses([]libunlynx.DpResponse{cr}, proofsB, groupBy, sum, where)
+}
+
+// InsertDpResponses stores the responses of one upload: they are pulled all together or not at all.
+func (s *Store) InsertDpResponses(crs []libunlynx.DpResponse, proofsB bool, groupBy, sum []string, where []libunlynx.WhereQueryAttribute) {
+	// data providers upload their responses concurrently
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
+	for _, cr := range crs {
+		s.insertDpResponse(cr, proofsB, groupBy, sum, where)
+	}
+}
+
+func (s *Store) insertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy, sum []string, where []libunlynx.WhereQueryAttribute) {
 	newResp := libunlynx.ProcessResponse{}
 	clearGrp := make([]int64, 0)
 	clearWhr := make([]int64, 0)
@@ -80,10 +95,6 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 	clearWhr, newResp.WhereEnc = proccessParameters(whereStrings, cr.WhereClear, cr.WhereEnc, noEnc)
 	_, newResp.AggregatingAttributes = proccessParameters(sum, cr.AggregatingAttributesClear, cr.AggregatingAttributesEnc, false)
 
-	// data providers upload their responses concurrently
-	s.Mutex.Lock()
-	defer s.Mutex.Unlock()
-
 	if !noEnc {
 		s.DpResponses = append(s.DpResponses, newResp)
 	} else {
diff --git a/services/service.go b/services/service.go
index dd9cb7c..9bce3eb 100644
--- a/services/service.go
+++ b/services/service.go
@@ -222,11 +222,9 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		}
 	}
 
-	for _, dr := range drs {
-		// the store is shared by all copies of the survey: putting back this copy
-		// would undo a concurrent update of the survey (e.g. of the querier's key)
-		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
-	}
+	// the store is shared by all copies of the survey: putting back this copy
+	// would undo a concurrent update of the survey (e.g. of the querier's key)
+	survey.InsertDpResponses(drs, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 
 	log.Lvl1(s.ServerIdentity(), " uploaded response data for survey ", resp.SurveyID)
 	return nil
-- 
2.43.0


From 3bbb9890b73e3018f246821370541aac9b8123d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 45/48] fix: refuse surveys and results queries that cannot be
 processed

A condition without a value, a survey without attributes (with proofs) and a results
query without a key stopped the server process; a survey without a collective key
was blinded with the wrong key and answered.
---
 services/service.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/services/service.go b/services/service.go
index 9bce3eb..71b867d 100644
--- a/services/service.go
+++ b/services/service.go
@@ -233,10 +233,33 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 // Query Handlers
 //______________________________________________________________________________________________________________________
 
+// checkQuery returns an error when the survey cannot be processed (the query comes from the querier).
+func (s *Service) checkQuery(recq *SurveyCreationQuery) error {
+	if recq.Roster.Aggregate == nil {
+		return fmt.Errorf("the roster of the survey has no collective key")
+	}
+	if i, _ := recq.Roster.Search(s.ServerIdentity().ID); i < 0 {
+		return fmt.Errorf(s.ServerIdentity().String() + " is not in the roster of the survey")
+	}
+	if len(recq.Sum)+len(recq.Where)+len(recq.GroupBy) == 0 {
+		return fmt.Errorf("the survey has no attributes")
+	}
+	for _, w := range recq.Where {
+		if w.Value.K == nil || w.Value.C == nil {
+			return fmt.Errorf("the condition on " + w.Name + " has no value")
+		}
+	}
+	return nil
+}
+
 // HandleSurveyCreationQuery handles the reception of a survey creation query by instantiating the corresponding survey.
 func (s *Service) HandleSurveyCreationQuery(recq *SurveyCreationQuery) (network.Message, error) {
 	log.Lvl1(s.ServerIdentity().String(), " received a Survey Creation Query")
 
+	if err := s.checkQuery(recq); err != nil {
+		return nil, err
+	}
+
 	// if this server is the one receiving the query from the client
 	if !recq.IntraMessage {
 		id := uuid.NewV4()
@@ -360,6 +383,10 @@ func (s *Service) HandleSurveyResponseQuery(resp *SurveyResponseQuery) (network.
 func (s *Service) HandleSurveyResultsQuery(resq *SurveyResultsQuery) (network.Message, error) {
 	log.Lvl1(s.ServerIdentity(), " received a survey result query")
 
+	if resq.ClientPublic == nil {
+		return nil, fmt.Errorf("no public key to encrypt the results for")
+	}
+
 	survey, err := s.getSurvey(resq.SurveyID)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 346f482284f19d7f7e53e7eb563255d89070079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 46/48] fix: refuse a predicate that the parser cannot bear

A predicate that ends in a backslash panics in the parser, which stopped the servers
that evaluate it on behalf of the one that was asked.
---
 services/service.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/services/service.go b/services/service.go
index 71b867d..501f0df 100644
--- a/services/service.go
+++ b/services/service.go
@@ -941,7 +941,7 @@ func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttribu
 func filterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttributeTagged, responsesToFilter []libunlynx.ProcessResponseDet) ([]libunlynx.FilteredResponseDet, error) {
 	var result []libunlynx.FilteredResponseDet
 	for _, v := range responsesToFilter {
-		expression, err := govaluate.NewEvaluableExpression(pred)
+		expression, err := parsePredicate(pred)
 		if err != nil {
 			return nil, fmt.Errorf("cannot parse the predicate %q: %v", pred, err)
 		}
@@ -972,6 +972,16 @@ func filterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttribu
 	return result, nil
 }
 
+// parsePredicate parses the predicate; the parser panics on some malformed ones.
+func parsePredicate(pred string) (expression *govaluate.EvaluableExpression, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("%v", e)
+		}
+	}()
+	return govaluate.NewEvaluableExpression(pred)
+}
+
 // FilterNone skips the filtering of attributes when there is no predicate (the number of where attributes == 0)
 func FilterNone(responsesToFilter []libunlynx.ProcessResponseDet) []libunlynx.FilteredResponseDet {
 	var result []libunlynx.FilteredResponseDet
-- 
2.43.0


From a2c9b119823f4a9339b44c8ab43d1be3398b07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 47/48] fix: filter clear responses by all of their where
 attributes

---
 lib/store/store.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 7144335..090b76c 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -203,6 +203,16 @@ func (s *Store) nextID() uint64 {
 	return uint64(s.lastID)
 }
 
+// hasZero tells if one of the attributes is 0
+func hasZero(attributes map[string]int64) bool {
+	for _, v := range attributes {
+		if v == 0 {
+			return true
+		}
+	}
+	return false
+}
+
 // AddInClear permits to add non-encrypted DP responses
 func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 	dataMap := make(map[string][]int64)
@@ -220,12 +230,10 @@ func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 			key = key[:len(key)-1]
 		}
 
-		// if the where matches (all 1s) -> filter responses
-		if len(elem.WhereClear) > 0 || len(elem.WhereEnc) > 0 {
-			if key[len(key)-1:] == "0" {
-				//discard these entries
-				continue
-			}
+		// if the where does not match (an attribute is 0) -> filter responses
+		if hasZero(elem.WhereClear) || hasZero(elem.WhereEnc) {
+			//discard these entries
+			continue
 		}
 
 		cpy := make([]int64, 0)
-- 
2.43.0


From 2e535360e3d6f6120ecc728790aaf7166a71dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 48/48] fix: compute the expected result of repeated data
 without changing the data

---
 data/handle_data.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index e5316af..4521e63 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -312,6 +312,15 @@ func ClearExpectedResult(expectedResult []libunlynx.DpClearResponse) []libunlynx
 	return clearExpectedResult
 }
 
+// repeatData returns the sums of data that is repeated (the data itself stays as it is)
+func repeatData(data map[string]int64, dataRepetitions int) map[string]int64 {
+	result := make(map[string]int64, len(data))
+	for k, v := range data {
+		result[k] = v * int64(dataRepetitions)
+	}
+	return result
+}
+
 // ComputeExpectedResult computes the expected results from the testData (we can then compare with the result obtained by service UnLynx)
 func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, dataRepetitions int, clear bool) []libunlynx.DpClearResponse {
 	allData := make([]libunlynx.DpClearResponse, 0)
@@ -321,12 +330,8 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 			//if we repeated data
 			if dataRepetitions > 1 {
-				for k := range elem.AggregatingAttributesClear {
-					elem.AggregatingAttributesClear[k] = elem.AggregatingAttributesClear[k] * int64(dataRepetitions)
-				}
-				for k := range elem.AggregatingAttributesEnc {
-					elem.AggregatingAttributesEnc[k] = elem.AggregatingAttributesEnc[k] * int64(dataRepetitions)
-				}
+				elem.AggregatingAttributesClear = repeatData(elem.AggregatingAttributesClear, dataRepetitions)
+				elem.AggregatingAttributesEnc = repeatData(elem.AggregatingAttributesEnc, dataRepetitions)
 			}
 
 			allData = append(allData, elem)
-- 
2.43.0

