From e5a71087011ac501cfe359ba53a56e618e2516d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 01/21] fix: a lost, refused or malformed connection no longer
 ends the process

A member that crashes, is absent or sends a broken frame made every peer
call log.Fatalln (or allocate the announced length). The connection ends
instead; an absent peer is dialled again while its messages wait.
---
 pkg/core/receive.go | 22 ++++++++++++-------
 pkg/core/send.go    | 52 ++++++++++++++++++++++++---------------------
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/pkg/core/receive.go b/pkg/core/receive.go
index 67e775a..5bdd1e2 100644
--- a/pkg/core/receive.go
+++ b/pkg/core/receive.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"log"
@@ -38,30 +39,35 @@ func MakeReceiveChannel(port string) chan *protobuf.Message {
 		for {
 			//The handle func run forever
 			conn, err3 = lis.AcceptTCP()
-			conn.SetKeepAlive(true)
 			if err3 != nil {
 				fmt.Printf("receiveChannel ERROR: %v\n", err3)
 				log.Fatalln(err3)
 			}
+			conn.SetKeepAlive(true)
 			//Once connect to a node, make a sub-handle func to handle this connection
 			go func(conn *net.TCPConn, channel chan *protobuf.Message) {
+				defer conn.Close()
 				for {
 					//Receive bytes
 					lengthBuf := make([]byte, 4)
 					_, err1 := io.ReadFull(conn, lengthBuf)
+					if err1 != nil {
+						fmt.Printf("The receive channel has broken down, err1: %v\n", err1)
+						return //the peer is gone, the other connections are not
+					}
 					length := utils.BytesToInt(lengthBuf)
-					buf := make([]byte, length)
-					_, err2 := io.ReadFull(conn, buf)
-					if err1 != nil || err2 != nil {
-						fmt.Printf("The receive channel has broken down, err1: %v, err2:%v\n", err1, err2)
-						log.Fatalln("The receive channel has broken down", err1, err2)
+					var buf bytes.Buffer //grows with what arrives, whatever length the peer announces
+					_, err2 := io.CopyN(&buf, conn, int64(length))
+					if err2 != nil {
+						fmt.Printf("The receive channel has broken down, err2: %v\n", err2)
+						return
 					}
 					//Do Unmarshal
 					var m protobuf.Message
-					err3 := proto.Unmarshal(buf, &m)
+					err3 := proto.Unmarshal(buf.Bytes(), &m)
 					if err3 != nil {
 						fmt.Printf("Unmarshal error: %v\n", err3)
-						log.Fatalln(err3)
+						continue //not a message
 					}
 					//Push protobuf.Message to receivechannel
 					(channel) <- &m
diff --git a/pkg/core/send.go b/pkg/core/send.go
index e31d3e7..cdba516 100644
--- a/pkg/core/send.go
+++ b/pkg/core/send.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"net"
+	"time"
 
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
@@ -16,29 +17,22 @@ var MAXMESSAGE = 1024
 
 //MakeSendChannel returns a channel to send messages to hostIP
 func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
-	var addr *net.TCPAddr
-	var conn *net.TCPConn
-	var err1, err2 error
-	//Retry to connet to node
-	retry := true
-	for retry {
-		addr, err1 = net.ResolveTCPAddr("tcp4", hostIP+":"+hostPort)
-		conn, err2 = net.DialTCP("tcp4", nil, addr)
-		conn.SetKeepAlive(true)
-		if err1 != nil || err2 != nil {
-			log.Fatalln(err1)
-			log.Fatalln(err2)
-			// retry = true
-		} else {
-			retry = false
-		}
-	}
+	conn, err := dial(hostIP, hostPort)
 	//Make the send channel and the handle func
 	sendChannel := make(chan *protobuf.Message, MAXMESSAGE)
 	go func(conn *net.TCPConn, channel chan *protobuf.Message) {
+		//Retry to connect to node, the messages wait in the channel
+		for err != nil {
+			time.Sleep(time.Second)
+			conn, err = dial(hostIP, hostPort)
+		}
+		broken := false
 		for {
 			//Pop protobuf.Message form sendchannel
 			m := <-(channel)
+			if broken {
+				continue //the node is gone, do not block the senders
+			}
 			//Do Marshal
 			byt, err1 := proto.Marshal(m)
 			if err1 != nil {
@@ -49,16 +43,26 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 			length := len(byt)
 			_, err2 := conn.Write(utils.IntToBytes(length))
 			_, err3 := conn.Write(byt)
-			if err2 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err2)
-				log.Fatalln("The send channel has broken down!", err2)
-			}
-			if err3 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err3)
-				log.Fatalln("The send channel has broken down!", err3)
+			if err2 != nil || err3 != nil {
+				fmt.Printf("The send channel has broken down! err2: %v, err3: %v\n", err2, err3)
+				broken = true
+				conn.Close()
 			}
 		}
 	}(conn, sendChannel)
 
 	return sendChannel
 }
+
+func dial(hostIP string, hostPort string) (*net.TCPConn, error) {
+	addr, err := net.ResolveTCPAddr("tcp4", hostIP+":"+hostPort)
+	if err != nil {
+		log.Fatalln(err)
+	}
+	conn, err := net.DialTCP("tcp4", nil, addr)
+	if err != nil {
+		return nil, err
+	}
+	conn.SetKeepAlive(true)
+	return conn, nil
+}
-- 
2.43.0


From 2ef8209f8c88bd838d27bd5f9f5c51b3f58bacaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 02/21] fix: messages of an instance nobody reads no longer
 block the dispatcher

Once N*N messages of one type and id were waiting, the dispatcher blocked
and no message of any other instance was delivered any more.
---
 pkg/core/dispatche.go | 44 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/pkg/core/dispatche.go b/pkg/core/dispatche.go
index 9b3368f..dc9761e 100644
--- a/pkg/core/dispatche.go
+++ b/pkg/core/dispatche.go
@@ -10,6 +10,7 @@ import (
 // and make a double layer Map : (messageType) --> (id) --> (channel)
 func MakeDispatcheChannels(receiveChannel chan *protobuf.Message, N uint32) *sync.Map {
 	dispatcheChannels := new(sync.Map)
+	backlogs := make(map[chan *protobuf.Message]*backlog)
 
 	go func() { //dispatcher
 		for {
@@ -18,7 +19,17 @@ func MakeDispatcheChannels(receiveChannel chan *protobuf.Message, N uint32) *syn
 
 			value2, _ := value1.(*sync.Map).LoadOrStore(string(m.Id), make(chan *protobuf.Message, N*N)) //ch change the size to N*N
 
-			value2.(chan *protobuf.Message) <- m
+			//nobody may be reading this channel, the other ones must not wait for it
+			ch := value2.(chan *protobuf.Message)
+			if backlogs[ch] == nil {
+				select {
+				case ch <- m:
+					continue
+				default:
+					backlogs[ch] = new(backlog)
+				}
+			}
+			backlogs[ch].put(m, ch)
 			//TODO: check reply attack?
 			//TODO: check m.Sender with ip||port
 
@@ -26,3 +37,34 @@ func MakeDispatcheChannels(receiveChannel chan *protobuf.Message, N uint32) *syn
 	}()
 	return dispatcheChannels
 }
+
+// backlog holds the messages that do not fit into a dispatch channel.
+type backlog struct {
+	mutex   sync.Mutex
+	queue   []*protobuf.Message
+	running bool
+}
+
+func (b *backlog) put(m *protobuf.Message, ch chan *protobuf.Message) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.queue = append(b.queue, m)
+	if b.running {
+		return
+	}
+	b.running = true
+	go func() {
+		for {
+			b.mutex.Lock()
+			if len(b.queue) == 0 {
+				b.running = false
+				b.mutex.Unlock()
+				return
+			}
+			m := b.queue[0]
+			b.queue = b.queue[1:]
+			b.mutex.Unlock()
+			ch <- m
+		}
+	}()
+}
-- 
2.43.0


From 2c3cdc361245d8c689f067d1653a531740058a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 03/21] fix: RBC tolerates wrong shards, duplicate and
 misdirected messages

The decoder gave up (or panicked) after the first wrong shard, waited in a
busy loop on unsynchronised state, counted several ECHOs of one sender,
amplified a READY with another hash's shard, took a proposal from any
sender and crashed on an empty one.
---
 internal/party/ProactivizeAndShareDist.go |   4 +-
 internal/party/RBC.go                     | 134 +++++++++++++---------
 2 files changed, 80 insertions(+), 58 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index a77084e..86857e9 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -142,7 +142,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_1," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceive([]byte(string(ID)+"_1,"+strconv.FormatUint(uint64(j), 10)), j-1)
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
@@ -570,7 +570,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceive([]byte(string(ID)+"_2,"+strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
 			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
 			var oldCB bls.G1Point
diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index d4c58ff..347efef 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -23,6 +23,12 @@ type hm struct {
 	m string
 }
 
+// a READY-quorum: T_h together with h
+type readySet struct {
+	h string
+	t []mReceived
+}
+
 //RBC propose
 func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
 	//encapsulate
@@ -41,7 +47,8 @@ func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32)
 	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
 }
 
-func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+//RBCReceive waits for the output of RBC instance ID. Only the given broadcaster (all parties, if none is given) can propose.
+func (p *HonestParty) RBCReceive(ID []byte, broadcaster ...uint32) *protobuf.Message {
 	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
 	var mLen int                 // the length of M_i
 	//here we ignore the validator function P(.)
@@ -51,18 +58,15 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
 	var T = make(map[string][]mReceived)
-	var MaxReadyNumber = int(0)
-	var MaxReadyHash []byte
-
 	var isReadySent = false
 	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
 	var mutexEchoMap sync.Mutex
 	var mutexReadyMap sync.Mutex
 
 	var readyChan = make(chan hm, p.N)
-	var RSDecStartChan = make(chan bool, 1)
-	var RSDecStart = false
+	var RSDecStartChan = make(chan readySet, p.N)
 
+	var hasReceivedEcho = make(map[uint32]bool)  //each party's first ECHO counts
 	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
 	for i := uint32(0); i < p.N; i++ {
 		hasReceivedReady[i] = false
@@ -71,6 +75,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	//handle RBCPropose message
 	go func() {
 		m := <-p.GetMessage("RBCPropose", ID)
+		for len(broadcaster) > 0 && m.Sender != broadcaster[0] {
+			m = <-p.GetMessage("RBCPropose", ID)
+		}
 		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
 		M := m.Data
 		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
@@ -79,7 +86,11 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 		//encode
 		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		shards, _ := RSEncoder.Split(M)
+		shards, err := RSEncoder.Split(M)
+		if err != nil {
+			log.Printf("[party %v] invalid RBCPropose message: %v, RBC instance ID: %s", p.PID, err, ID)
+			return
+		}
 		RSEncoder.Encode(shards)
 		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
 		copy(M1, shards)
@@ -109,6 +120,10 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	go func() {
 		for {
 			m := <-p.GetMessage("RBCEcho", ID)
+			if m.Sender >= p.N || hasReceivedEcho[m.Sender] {
+				continue
+			}
+			hasReceivedEcho[m.Sender] = true
 			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
 			var payloadMessage protobuf.RBCEcho
 			proto.Unmarshal(m.Data, &payloadMessage)
@@ -163,7 +178,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	go func() {
 		for {
 			m := <-p.GetMessage("RBCReady", ID)
-			if hasReceivedReady[m.Sender] {
+			if m.Sender >= p.N || hasReceivedReady[m.Sender] {
 				continue
 			} else {
 				hasReceivedReady[m.Sender] = true
@@ -188,11 +203,6 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
 			}
 
-			if len(T[hashString]) > MaxReadyNumber {
-				MaxReadyNumber = len(T[hashString])
-				MaxReadyHash = hash
-			}
-
 			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
 			mutex.Lock()
 			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
@@ -204,7 +214,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 					res = <-readyChan
 					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
 					mutexEchoMap.Lock()
-					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
+					if res.h == hashString && uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
 						mutexEchoMap.Unlock()
 						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
 						mutex.Lock()
@@ -225,9 +235,8 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 			}
 
 			// upon receiving |T| >= 2t+1 = n-t
-			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStart = true
-				RSDecStartChan <- true
+			if uint32(len(T[string(hash)])) >= p.N-p.F {
+				RSDecStartChan <- readySet{hashString, append([]mReceived(nil), T[hashString]...)}
 			}
 			mutexReadyMap.Unlock()
 
@@ -240,53 +249,66 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	}()
 
 	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	<-RSDecStartChan
-	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
-	for r := uint32(0); r <= p.F; r++ {
-		for {
-			if uint32(MaxReadyNumber) >= p.N-p.F+r {
-				break
+	for {
+		ready := <-RSDecStartChan
+		//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
+		//up to F of the shards may be wrong: leave out as few as possible
+		for r := 0; r <= int(p.F) && len(ready.t)-r >= int(p.N-(p.F+1)); r++ {
+			mReconstructed := p.rsDecode([]byte(ready.h), ready.t, 0, r)
+			if mReconstructed != nil {
+				var replyMessage protobuf.Message
+				proto.Unmarshal(mReconstructed, &replyMessage)
+				// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
+				return &replyMessage
 			}
 		}
+		log.Printf("[party %v] cannot reconstruct the message from %v shards, RBC instance ID: %s", p.PID, len(ready.t), ID)
+	}
+}
 
-		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
-		mutexReadyMap.Lock()
-		copy(mReceivedTemp, T[string(MaxReadyHash)])
-		mutexReadyMap.Unlock()
-
-		var M = make([][]byte, p.N)
-		for i := uint32(0); i < p.N-p.F+r; i++ {
-			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
+//rsDecode reconstructs the message with the given hash, leaving out r of the shards from the given one on; it returns nil if that does not work
+func (p *HonestParty) rsDecode(hash []byte, shards []mReceived, from int, r int) []byte {
+	if r > 0 {
+		for i := from; i < len(shards); i++ {
+			rest := append(append([]mReceived(nil), shards[:i]...), shards[i+1:]...)
+			if m := p.rsDecode(hash, rest, i, r-1); m != nil {
+				return m
+			}
 		}
+		return nil
+	}
 
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		ok, _ := RSEncoder.Verify(M)
-		if !ok {
-			RSEncoder.Reconstruct(M)
-		}
+	var M = make([][]byte, p.N)
+	for _, shard := range shards {
+		M[shard.j] = shard.mj
+	}
 
-		//parse M and remove the padding zeros
-		var mReconstructed = make([]byte, 0)
-		for i := uint32(0); i < p.N-(p.F+1); i++ {
-			mReconstructed = append(mReconstructed, M[i]...)
-		}
+	RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+	if RSEncoder.ReconstructData(M) != nil {
+		return nil
+	}
 
-		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
-		//the first 256/8 bytes in MaxReadyHash are the hash value
-		MaxReadyHash = MaxReadyHash[:256/8]
-		mReconstructed = mReconstructed[0:mLenNew]
+	//parse M and remove the padding zeros
+	var mReconstructed = make([]byte, 0)
+	for i := uint32(0); i < p.N-(p.F+1); i++ {
+		mReconstructed = append(mReconstructed, M[i]...)
+	}
 
-		hNew := sha256.New()
-		hNew.Write(mReconstructed)
+	//the last several bytes in hash are the length of M' (see line 9, Algo 4 in RBC paper)
+	//the first 256/8 bytes in hash are the hash value
+	if len(hash) < 256/8 {
+		return nil
+	}
+	mLenNew := utils.BytesToInt(hash[256/8:])
+	if mLenNew > len(mReconstructed) {
+		return nil
+	}
+	mReconstructed = mReconstructed[0:mLenNew]
 
-		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
-			var replyMessage protobuf.Message
-			proto.Unmarshal(mReconstructed, &replyMessage)
-			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
-			return &replyMessage
-		}
+	hNew := sha256.New()
+	hNew.Write(mReconstructed)
+	if !bytes.Equal(hNew.Sum(nil), hash[:256/8]) {
+		return nil
 	}
-	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
-	return nil
+	return mReconstructed
 }
-- 
2.43.0


From 45ff454f41f59b4e0d839537b1452acaac98b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 04/21] fix: count each member, its messages and its signature
 shares only once

---
 internal/party/ProactivizeAndShareDist.go | 19 +++++++---
 internal/party/ShareReduce.go             |  7 ++--
 internal/party/message_handler.go         | 20 ++++++-----
 internal/party/party_utils.go             | 42 +++++++++++++++++++++++
 internal/party/pb.go                      |  5 +--
 5 files changed, 76 insertions(+), 17 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 86857e9..d0c5f49 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -1,6 +1,7 @@
 package party
 
 import (
+	"context"
 	"log"
 	"strconv"
 	"sync"
@@ -258,10 +259,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	// 	SigShare[i] = make(map[uint32][]byte)
 	// }
 
+	reshares := p.memberMessages(context.Background(), "Reshare", ID)
 	for ctr := uint32(1); ctr <= p.N; ctr++ {
 		//ctr is not used here
 		go func(ctr uint32) {
-			m := <-p.GetMessage("Reshare", ID)
+			m := <-reshares
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
@@ -349,17 +351,22 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	RecoverMsgChan := make([]chan RecoverMsg, p.N+1) // index 0 is not used
 	for i := uint32(0); i <= p.N; i++ {
-		RecoverMsgChan[i] = make(chan RecoverMsg)
+		RecoverMsgChan[i] = make(chan RecoverMsg, p.N)
 	}
 
 	//Recover - receiving messages
 	go func() {
+		var received = make(map[[2]uint32]bool) //each party sends one Recover message per index
 		for {
 			m := <-p.GetMessage("Recover", ID)
 
 			var ReceivedRecoverData protobuf.Recover
 			proto.Unmarshal(m.Data, &ReceivedRecoverData)
 			k := ReceivedRecoverData.Index
+			if m.Sender >= p.N || k < 1 || k > p.N || received[[2]uint32{m.Sender, k}] {
+				continue
+			}
+			received[[2]uint32{m.Sender, k}] = true
 			//log.Printf("[Proactivize Recover][New party %v] Have received Recover message from party %v, k=%v\n", p.PID, m.Sender, k)
 			var tmpV_Array [32]byte
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
@@ -398,7 +405,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				KZGVerifyOk := p.KZG.CheckProofSingle(&C, &wkij, &index, &vkij)
 				p.mutexKZG.Unlock()
 
-				SigShareVerifyOk := p.tblsScheme.VerifyPartial(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare)
+				SigShareVerifyOk := p.verifyShare(mSender, []byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare)
 
 				if KZGVerifyOk && (SigShareVerifyOk == nil) {
 					mutexSRec.Lock()
@@ -611,10 +618,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	var SuccessSent = false
 	var SuccessSentChan = make(chan bool, 1)
 
+	dists := p.memberMessages(context.Background(), "ShareDist", ID)
 	for index := uint32(0); index < p.N; index++ {
 		//index is not used here
 		go func(index uint32) {
-			m := <-p.GetMessage("ShareDist", ID)
+			m := <-dists
 
 			var ReceivedShareDistData protobuf.ShareDist
 			proto.Unmarshal(m.Data, &ReceivedShareDistData)
@@ -682,10 +690,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	var SuccessCount = uint32(0)
 	var EnterNormalChan = make(chan bool, 1)
 
+	successes := p.memberMessages(context.Background(), "Success", ID)
 	go func() {
 		<-SuccessSentChan
 		for {
-			<-p.GetMessage("Success", ID)
+			<-successes
 			// the content is useless here
 			// proto.Unmarshal(m.Data, &ReceivedSuccessData)
 			SuccessCount++
diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 249a37c..b720c43 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -1,6 +1,7 @@
 package party
 
 import (
+	"context"
 	"crypto/sha256"
 	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
 	"github.com/DyCAPSTeam/DyCAPS/internal/polyring"
@@ -71,8 +72,9 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 
 	var cnt = 0 //used to judge whether to execute p.ShareReduceStart_new = time.Now()
 
+	reduces := p.memberMessages(context.Background(), "ShareReduce", ID)
 	for {
-		m := <-p.GetMessage("ShareReduce", ID)
+		m := <-reduces
 		if cnt == 0 {
 			p.ShareReduceStart_new = time.Now()
 		}
@@ -174,8 +176,9 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 
 	var cnt = 0 //used to judge whether to execute p.PrepareStart_new = time.Now()
 
+	prepares := p.memberMessages(context.Background(), "Prepare", ID)
 	for {
-		msg := <-p.GetMessage("Prepare", ID)
+		msg := <-prepares
 		if cnt == 0 {
 			p.PrepareStart_new = time.Now()
 		}
diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 0333d5a..5635aeb 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -29,11 +29,12 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//FinishMessage Handler
 	go func() {
 		FrLength := 0
+		finishes := p.memberMessages(ctx, "Finish", IDr)
 		for {
 			select {
 			case <-ctx.Done():
 				return
-			case m := <-p.GetMessage("Finish", IDr):
+			case m := <-finishes:
 				payload := core.Decapsulation("Finish", m).(*protobuf.Finish)
 				h := sha3.Sum512(payload.Value)
 				var buf bytes.Buffer
@@ -62,13 +63,14 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 		buf.Write(IDr)
 		coinName := buf.Bytes()
 		coins := [][]byte{}
+		dones := p.memberMessages(ctx, "Done", IDr)
 		for {
 			select {
 			case <-ctx.Done():
 				return
-			case m := <-p.GetMessage("Done", IDr):
+			case m := <-dones:
 				payload := core.Decapsulation("Done", m).(*protobuf.Done)
-				err := tblsScheme.VerifyPartial(p.SigPK, coinName, payload.CoinShare) //verifyshare("Done"||ID||r)
+				err := p.verifyShare(m.Sender, coinName, payload.CoinShare) //verifyshare("Done"||ID||r)
 
 				if err == nil {
 					coins = append(coins, payload.CoinShare)
@@ -122,11 +124,12 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//PreVoteMessage Handler
 	go func() {
 		PNr := [][]byte{}
+		preVotes := p.memberMessages(ctx, "PreVote", IDr)
 		for {
 			select {
 			case <-ctx.Done():
 				return
-			case m := <-p.GetMessage("PreVote", IDr):
+			case m := <-preVotes:
 				payload := core.Decapsulation("PreVote", m).(*protobuf.PreVote)
 				if payload.Vote {
 					// if p.PID == 3 {
@@ -154,7 +157,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf.WriteByte(byte(0)) //false
 					buf.Write(IDr)
 					sm := buf.Bytes()
-					err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sig) //verifyShare(false||ID||r)
+					err := p.verifyShare(m.Sender, sm, payload.Sig) //verifyShare(false||ID||r)
 					if err == nil {
 						PNr = append(PNr, payload.Sig)
 						if len(PNr) > int(2*p.F) {
@@ -178,11 +181,12 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	go func() {
 		VYr := [][]byte{}
 		VNr := [][]byte{}
+		votes := p.memberMessages(ctx, "Vote", IDr)
 		for {
 			select {
 			case <-ctx.Done():
 				return
-			case m := <-p.GetMessage("Vote", IDr):
+			case m := <-votes:
 
 				payload := core.Decapsulation("Vote", m).(*protobuf.Vote)
 				if payload.Vote {
@@ -195,7 +199,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					sm := buf.Bytes()
 					err1 := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||1||h)
 					sm[len([]byte("Echo"))+len(IDrj[l])] = 2
-					err2 := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyShare("Echo"||ID||r||l||2||h)
+					err2 := p.verifyShare(m.Sender, sm, payload.Sigshare) //verifyShare("Echo"||ID||r||l||2||h)
 					if err1 == nil && err2 == nil {
 						VYr = append(VYr, payload.Sigshare)
 						if len(VYr) > int(2*p.F) {
@@ -221,7 +225,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf2.Write([]byte("Unlock"))
 					buf2.Write(IDr)
 					sm2 := buf2.Bytes()
-					err2 := tblsScheme.VerifyPartial(p.SigPK, sm2, payload.Sigshare) //verifyShare("Unlock"||ID||r)
+					err2 := p.verifyShare(m.Sender, sm2, payload.Sigshare) //verifyShare("Unlock"||ID||r)
 					if err1 == nil && err2 == nil {
 						VNr = append(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index d676632..199a965 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -1,11 +1,13 @@
 package party
 
 import (
+	"context"
 	"errors"
 	"fmt"
 	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
+	"github.com/drand/kyber/sign/tbls"
 	"google.golang.org/protobuf/proto"
 	"log"
 	"sync"
@@ -103,6 +105,46 @@ func (p *HonestParty) BroadcastToNextCommittee(m *protobuf.Message) error {
 	return nil
 }
 
+//memberMessages hands on at most one message of this type and ID per existing member
+//(only those of the members in from, if it is given), so that no member is counted twice
+func (p *HonestParty) memberMessages(ctx context.Context, messageType string, ID []byte, from ...uint32) chan *protobuf.Message {
+	received := p.GetMessage(messageType, ID)
+	members := make(chan *protobuf.Message, p.N)
+	expected := make(map[uint32]bool)
+	for i := uint32(0); i < p.N && len(from) == 0; i++ {
+		expected[i] = true
+	}
+	for _, i := range from {
+		expected[i] = true
+	}
+	go func() {
+		for len(expected) > 0 {
+			select {
+			case <-ctx.Done():
+				return
+			case m := <-received:
+				if expected[m.Sender] {
+					delete(expected, m.Sender)
+					members <- m
+				}
+			}
+		}
+	}()
+	return members
+}
+
+//verifyShare checks that share is the sender's own signature share on msg
+func (p *HonestParty) verifyShare(sender uint32, msg []byte, share []byte) error {
+	index, err := tbls.SigShare(share).Index()
+	if err != nil {
+		return err
+	}
+	if index != int(sender) {
+		return errors.New("this share belongs to another party")
+	}
+	return p.tblsScheme.VerifyPartial(p.SigPK, msg, share)
+}
+
 //GetMessage tries to get a message according to messageType and ID
 func (p *HonestParty) GetMessage(messageType string, ID []byte) chan *protobuf.Message {
 	value1, _ := p.dispatchChannels.LoadOrStore(messageType, new(sync.Map))
diff --git a/internal/party/pb.go b/internal/party/pb.go
index 6e3fff6..207dd9e 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -30,14 +30,15 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 	buf.Write(h[:])
 	sm := buf.Bytes()
 
+	echoes := p.memberMessages(ctx, "Echo", ID)
 	for {
 		select {
 		case <-ctx.Done():
 			return nil, false
-		case m := <-p.GetMessage("Echo", ID):
+		case m := <-echoes:
 
 			payload := core.Decapsulation("Echo", m).(*protobuf.Echo)
-			err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyshare("Echo"||ID||h)
+			err := p.verifyShare(m.Sender, sm, payload.Sigshare) //verifyshare("Echo"||ID||h)
 
 			if err == nil {
 				sigs = append(sigs, payload.Sigshare)
-- 
2.43.0


From ef14916af7b90676d132a845e0bb1c3dbaec6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 05/21] fix: ignore malformed messages instead of crashing on
 them; a reshare must be right in every value

---
 internal/party/ProactivizeAndShareDist.go | 51 ++++++++++++++++++-----
 internal/party/ShareReduce.go             |  7 +++-
 internal/party/VSS.go                     | 15 +++++--
 internal/party/party_utils.go             | 31 ++++++++++----
 4 files changed, 82 insertions(+), 22 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index d0c5f49..d333da6 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -147,11 +147,19 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
+			if uint32(len(ReceivedData.Pi)) != 2*p.F+1 {
+				log.Printf("[Proactivize Verify][New party %v] Commit message of new party %v is malformed\n", p.PID, j)
+				return
+			}
 
 			//TODO: This part can be replaced by verifying the commitment of KZG (reducing the communication cost from O(2t+1) to O(1))
 			GFjList := make([]bls.G1Point, 2*p.F+1)
 			for i := uint32(0); i < 2*p.F+1; i++ {
-				tmpGFj, _ := bls.FromCompressedG1(ReceivedData.Pi[i].GFj)
+				tmpGFj, err := bls.FromCompressedG1(ReceivedData.Pi[i].GetGFj())
+				if err != nil {
+					log.Printf("[Proactivize Verify][New party %v] Commit message of new party %v is malformed\n", p.PID, j)
+					return
+				}
 				bls.CopyG1(&GFjList[i], tmpGFj)
 			}
 			p.mutexKZG.Lock()
@@ -168,10 +176,14 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			//parse piJ from RBC1J
 			for k := uint32(0); k < 2*p.F+1; k++ {
-				CQk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CBj)
-				CZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CZj)
-				wZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].WZ0)
+				CQk, errCQ := bls.FromCompressedG1(ReceivedData.Pi[k].CBj)
+				CZk, errCZ := bls.FromCompressedG1(ReceivedData.Pi[k].CZj)
+				wZk, errWZ := bls.FromCompressedG1(ReceivedData.Pi[k].WZ0)
 				GFk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].GFj)
+				if errCQ != nil || errCZ != nil || errWZ != nil {
+					log.Printf("[Proactivize Verify][New party %v] Commit message of new party %v is malformed\n", p.PID, j)
+					return
+				}
 
 				var mulRes bls.G1Point
 				p.mutexKZG.Lock()
@@ -268,6 +280,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
 
+			if uint32(len(ReceivedReshareData.Qk)) != 2*p.F+1 || uint32(len(ReceivedReshareData.WQk)) != 2*p.F+1 {
+				log.Printf("[Proactivize Vote][New party %v] Reshare message from party %v is malformed\n", p.PID, m.Sender)
+				return
+			}
+
 			indexJ := m.Sender + 1
 			//wait until flgCom[indexJ]=1
 			if !flgCom[indexJ] {
@@ -283,7 +300,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				vjki_bytes := [32]byte{}
 				copy(vjki_bytes[:], ReceivedReshareData.Qk[k-1])
 				bls.FrFrom32(&vjki[k], vjki_bytes)
-				tmpWjki, _ := bls.FromCompressedG1(ReceivedReshareData.WQk[k-1])
+				tmpWjki, err := bls.FromCompressedG1(ReceivedReshareData.WQk[k-1])
+				if err != nil {
+					log.Printf("[Proactivize Vote][New party %v] Reshare message from party %v is malformed\n", p.PID, m.Sender)
+					return
+				}
 				wjki[k] = *tmpWjki
 
 				C := CQ[indexJ][k]
@@ -294,7 +315,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				p.mutexKZG.Unlock()
 				if !verifyReshareOK {
 					log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v FAIL, CQ[%v][%v]: %s, vjki:%v, wjki:%s\n", p.PID, m.Sender, indexJ, k, CQ[indexJ][k].String(), vjki[k].String(), wjki[k].String())
-					// break
+					break
 				}
 			}
 			if verifyReshareOK {
@@ -372,7 +393,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
 			var v bls.Fr
 			bls.FrFrom32(&v, tmpV_Array)
-			w, _ := bls.FromCompressedG1(ReceivedRecoverData.W)
+			w, err := bls.FromCompressedG1(ReceivedRecoverData.W)
+			if err != nil {
+				continue
+			}
 			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}
 		}
 	}()
@@ -579,7 +603,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		go func(j uint32) {
 			m := p.RBCReceive([]byte(string(ID)+"_2,"+strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
-			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
+			ReceivedCB, err := bls.FromCompressedG1(NewCommitData)
+			if err != nil {
+				log.Printf("[ShareDist Verify][New party %v] NewCom from RBC_2j is malformed, j=%v\n", p.PID, j)
+				return
+			}
 			var oldCB bls.G1Point
 			if j <= 2*p.F+1 {
 				bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
@@ -636,13 +664,16 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			currentCB := SCom[j].CB
 			SComMutex.Unlock()
 			var vjShareDist bls.Fr
-			var wjShareDist *bls.G1Point
 			var i bls.Fr
 
 			var vjShareDist_Array [32]byte
 			copy(vjShareDist_Array[:], ReceivedShareDistData.B)
 			bls.FrFrom32(&vjShareDist, vjShareDist_Array)
-			wjShareDist, _ = bls.FromCompressedG1(ReceivedShareDistData.WB)
+			wjShareDist, err := bls.FromCompressedG1(ReceivedShareDistData.WB)
+			if err != nil {
+				log.Printf("[ShareDist Interpolate][New party %v] ShareDist message from new party %v is malformed\n", p.PID, j)
+				return
+			}
 			bls.AsFr(&i, uint64(p.PID+1))
 
 			p.mutexKZG.Lock()
diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index b720c43..7b72c4b 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -82,8 +82,11 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 		var ShareReduceData protobuf.ShareReduce
 		proto.Unmarshal(m.Data, &ShareReduceData)
 
-		tmpC, _ := bls.FromCompressedG1(ShareReduceData.C)
-		tmpwJ, _ := bls.FromCompressedG1(ShareReduceData.W)
+		tmpC, errC := bls.FromCompressedG1(ShareReduceData.C)
+		tmpwJ, errW := bls.FromCompressedG1(ShareReduceData.W)
+		if errC != nil || errW != nil {
+			continue
+		}
 		tmpvJ_bytes := [32]byte{}
 		copy(tmpvJ_bytes[:], ShareReduceData.V)
 		bls.CopyG1(&C, tmpC)
diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index d3b78a6..1edc24e 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -27,16 +27,25 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 	err := proto.Unmarshal(m.Data, &payloadMessage)
 	if err != nil {
 		log.Printf("[VSSEcho][Party %v] Unmarshal err: %v\n", p.PID, err)
+		return
+	}
+	err = piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
+	if err != nil || uint32(len(payloadMessage.BijList)) < 2*p.F+2 || uint32(len(payloadMessage.WBijList)) < 2*p.F+2 {
+		log.Printf("[VSSEcho][Party %v] VSSSend is malformed: %v\n", p.PID, err)
+		return
 	}
-	piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
 
 	for j := uint32(1); j < 2*p.F+2; j++ {
 
 		value_byte := [32]byte{}
 		copy(value_byte[:], payloadMessage.BijList[j])
-		bls.FrFrom32(&polyValueFromSend[j], value_byte)
+		valueOK := bls.FrFrom32(&polyValueFromSend[j], value_byte)
 
-		wit_raw, _ := bls.FromCompressedG1(payloadMessage.WBijList[j])
+		wit_raw, err := bls.FromCompressedG1(payloadMessage.WBijList[j])
+		if err != nil || !valueOK {
+			log.Printf("[VSSEcho][Party %v] VSSSend is malformed: %v\n", p.PID, err)
+			return
+		}
 		bls.CopyG1(&witnessFromSend[j], wit_raw)
 	}
 
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index 199a965..fc0a53a 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -279,17 +279,33 @@ func EncapsulateVSSSend(pi *Pi, BijList []bls.Fr, WBijList []bls.G1Point, F uint
 	return data
 }
 
-func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) {
+//decodeG1 sets dst to the point that is encoded in v, if there is one
+func decodeG1(dst *bls.G1Point, v []byte) error {
+	raw, err := bls.FromCompressedG1(v)
+	if err == nil {
+		bls.CopyG1(dst, raw)
+	}
+	return err
+}
 
-	Gs_raw, _ := bls.FromCompressedG1(m.Gs)
-	bls.CopyG1(&pi.Gs, Gs_raw)
+func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) error {
+
+	if err := decodeG1(&pi.Gs, m.GetGs()); err != nil {
+		return err
+	}
+	if uint32(len(m.PiContents)) < 2*F+2 {
+		return errors.New("commitments are missing")
+	}
 
 	for j := uint32(1); j <= 2*F+1; j++ {
 
-		CBj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CBj)
-		CZj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CZj)
-		WZ0_raw, _ := bls.FromCompressedG1(m.PiContents[j].WZ0)
-		gFj_raw, _ := bls.FromCompressedG1(m.PiContents[j].GFj)
+		CBj_raw, err1 := bls.FromCompressedG1(m.PiContents[j].GetCBj())
+		CZj_raw, err2 := bls.FromCompressedG1(m.PiContents[j].GetCZj())
+		WZ0_raw, err3 := bls.FromCompressedG1(m.PiContents[j].GetWZ0())
+		gFj_raw, err4 := bls.FromCompressedG1(m.PiContents[j].GetGFj())
+		if err1 != nil || err2 != nil || err3 != nil || err4 != nil {
+			return errors.New("a commitment is malformed")
+		}
 
 		bls.CopyG1(&pi.PiContents[j].CBj, CBj_raw)
 		bls.CopyG1(&pi.PiContents[j].CZj, CZj_raw)
@@ -298,6 +314,7 @@ func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) {
 
 		pi.PiContents[j].j = j
 	}
+	return nil
 }
 
 func (pi *Pi) Set(src *Pi, F uint32) {
-- 
2.43.0


From 659740dad63ad26f8f26841f3403b9afedb40d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 06/21] fix: VSS adopts a dealing only from the dealer and only
 if it matches g^s

---
 internal/party/VSS.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index 1edc24e..77f61f1 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -22,6 +22,9 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 	//We assume VSS sender only sends VSSSend message once (whether the sender is honest or not)
 	//So there is no for-loop here: each party only processes VSSSend once
 	m := <-p.GetMessage("VSSSend", ID)
+	for m.Sender != 0x7fffffff { // only the dealer's message counts (0x7fffffff denotes the dealer id)
+		m = <-p.GetMessage("VSSSend", ID)
+	}
 	log.Printf("[VSSEcho][Party %v] Received VSSSend Message\n", p.PID)
 	var payloadMessage protobuf.VSSSend
 	err := proto.Unmarshal(m.Data, &payloadMessage)
@@ -97,6 +100,7 @@ func (p *HonestParty) VerifyVSSSendReceived(polyValue []bls.Fr, witness []bls.G1
 
 	if !bls.EqualG1(&piReceived.Gs, &tmpGs) {
 		log.Printf("[VSSEcho][Party %v] VSSSend Verify FAIL, g_s=%v, but prod(g^F(index))=%v \n", p.PID, piReceived.Gs.String(), tmpGs.String())
+		return false
 	}
 
 	//Verify KZG.VerifyEval(CZjk,0,0,WZjk0) == 1 && CBjk == CZjk * g^Fj(k) for k in [1,2t+1]
-- 
2.43.0


From 95c5674fd7529c3959ac9b8ce056d7b314442efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 07/21] fix: refresh waits for every agreed contribution, which
 stay recoverable during MVBA

---
 internal/party/ProactivizeAndShareDist.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index d333da6..55cf7ad 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -465,7 +465,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							log.Printf("[Proactivize MVBA][New party %v] Call MVBA with input length %v\n", p.PID, len(MVBAIn.J))
 							MVBAInData, _ := proto.Marshal(MVBAIn)
 							MVBASent = true
-							MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							//the Recover messages are handled further while MVBA runs
+							go func() {
+								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							}()
 						}
 						mutexMVBAIn.Unlock()
 					}
@@ -473,7 +476,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				} else {
 					log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v FAIL, k=%v. Current Srec[%v] lenth: %v\\n", p.PID, mSender, k, k, len(SRec[k]))
 				}
-				if MVBASent {
+				if flgRec[k] && CombinedFlag[k] {
 					//log.Printf("[Proactivize Recover][New party %v] Recover done\n", p.PID)
 					break
 				}
@@ -494,13 +497,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	for _, j := range MVBARes.J {
 
-		//wait until all related flgCom = 1
-		if !flgCom[j] {
-			<-RecDone[j]
-			p.mutexKZG.Lock()
-			CQ[j][p.PID+1] = *p.KZG.CommitToPoly(Q[j][p.PID+1])
-			p.mutexKZG.Unlock()
-		}
+		//wait until Q[j][p.PID+1] is recovered, which also means flgCom[j] = 1
+		<-RecDone[j]
 
 		for i := 0; uint32(i) < p.F+1; i++ {
 			var tmpCoeff bls.Fr
-- 
2.43.0


From 9bb66967e68f161bd9ce9ec08a5a0417aa657bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 08/21] fix: members interpolate the full share once, from a
 consistent list of points

---
 internal/party/ProactivizeAndShareDist.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 55cf7ad..04799b8 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -680,6 +680,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			if verifyKZGOk {
 				//log.Printf("[ShareDist Interpolate][New party %v] Verify ShareDist message from new party %v SUCCESS\n", p.PID, j)
+				SComMutex.Lock()
+				defer SComMutex.Unlock()
 				SB = append(SB, SBElement{
 					index: j,
 					CB:    currentCB,
-- 
2.43.0


From 047ad9d3712d2575258f6f807508e1879c339080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 09/21] fix: keep commitments and witnesses in step with the
 refreshed shares

---
 internal/party/ProactivizeAndShareDist.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 04799b8..5a33315 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -521,6 +521,15 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	copyedHalfShare := make([]bls.Fr, p.F+1)
 	copy(copyedHalfShare, p.reducedShare)
 
+	//the commitments follow the refreshed sharing, so that the next handoff can build on them
+	var oldCBList = make([]bls.G1Point, 2*p.F+2)
+	for i := uint32(1); i <= 2*p.F+1; i++ {
+		bls.CopyG1(&oldCBList[i], &p.Proof.PiContents[i].CBj)
+		p.mutexKZG.Lock()
+		bls.AddG1(&p.Proof.PiContents[i].CBj, &oldCBList[i], &CQsum[i])
+		p.mutexKZG.Unlock()
+	}
+
 	for i := 0; uint32(i) < p.F+1; i++ {
 		var tmpCoeff bls.Fr
 		bls.AddModFr(&tmpCoeff, &Qsum[i], &p.reducedShare[i])
@@ -608,11 +617,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			}
 			var oldCB bls.G1Point
 			if j <= 2*p.F+1 {
-				bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
+				bls.CopyG1(&oldCB, &oldCBList[j])
 			} else {
 				CBList := make([]bls.G1Point, 2*p.F+2)
 				for i := uint32(1); i <= 2*p.F+1; i++ {
-					bls.CopyG1(&CBList[i], &p.Proof.PiContents[i].CBj)
+					bls.CopyG1(&CBList[i], &oldCBList[i])
 				}
 				p.mutexKZG.Lock()
 				oldCB = p.InterpolateComOrWit(2*p.F, j, CBList[1:])
@@ -696,6 +705,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 					for t := uint32(0); t < 2*p.F+1; t++ {
 						bls.AsFr(&DistX[t], uint64(SB[t].index))
 						bls.CopyFr(&DistY[t], &SB[t].v)
+						bls.CopyFr(&p.witnessIndexes[t], &DistX[t])
+						bls.CopyG1(&p.witness[t], &SB[t].w)
 					}
 
 					p.fullShare = polyring.LagrangeInterpolate(2*int(p.F), DistX, DistY)
-- 
2.43.0


From f0820203a59d723cbabbb4e9815b10b197b989c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 10/21] fix: an agreement round ends on split votes, and its
 unlock proof is made of the No votes

---
 internal/party/message_handler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 5635aeb..183b86f 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -181,6 +181,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	go func() {
 		VYr := [][]byte{}
 		VNr := [][]byte{}
+		var yes *protobuf.Vote
 		votes := p.memberMessages(ctx, "Vote", IDr)
 		for {
 			select {
@@ -202,6 +203,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					err2 := p.verifyShare(m.Sender, sm, payload.Sigshare) //verifyShare("Echo"||ID||r||l||2||h)
 					if err1 == nil && err2 == nil {
 						VYr = append(VYr, payload.Sigshare)
+						yes = payload
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 0
@@ -228,8 +230,12 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					err2 := p.verifyShare(m.Sender, sm2, payload.Sigshare) //verifyShare("Unlock"||ID||r)
 					if err1 == nil && err2 == nil {
 						VNr = append(VNr, payload.Sigshare)
-						if len(VNr) > int(2*p.F) {
-							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VYr, int(2*p.F+1), int(p.N))
+						if yes != nil && len(VYr)+len(VNr) > int(2*p.F) {
+							voteFlagChannel <- 2
+							voteOtherChannel <- yes.Value
+							voteOtherChannel <- yes.Sig
+						} else if len(VNr) > int(2*p.F) {
+							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
 						}
-- 
2.43.0


From 5492da3b04af3ddcfe909ea3180d630681c3bb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 11/21] fix: a member that leaves an agreement round leaves
 behind what the others need to follow

---
 internal/party/main_process.go    | 21 +++++++++++++++++++--
 internal/party/message_handler.go |  2 ++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 67feb09..08054f4 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -90,7 +90,11 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 			leaderChannel, haltChannel, r)
 
 		//doneFlag -> common coin
-		go election(ctx, p, IDr, doneFlagChannel)
+		doneSent := make(chan bool, 1)
+		go func() {
+			election(ctx, p, IDr, doneFlagChannel)
+			doneSent <- true
+		}()
 
 		//leaderChannel -> shortcut -> prevote||vote||viewchange
 		select {
@@ -101,6 +105,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		case l := <-leaderChannel:
 			spbCancel()
 			wg.Wait()
+			<-doneSent //the others may need this party's coin share, even if it decides now
 
 			//short-cut
 			value1, ok1 := Fr.Load(l)
@@ -119,7 +124,11 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 			go preVote(ctx, p, IDr, l, &Lr)
 
 			//vote
-			go vote(ctx, p, IDr, l, preVoteFlagChannel, preVoteYesChannel, preVoteNoChannel, r)
+			voteSent := make(chan bool, 1)
+			go func() {
+				vote(ctx, p, IDr, l, preVoteFlagChannel, preVoteYesChannel, preVoteNoChannel, r)
+				voteSent <- true
+			}()
 
 			//result
 			select {
@@ -146,6 +155,14 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 					value = <-voteOtherChannel
 					validation = <-voteOtherChannel
 				}
+
+				//the others may need this party's vote to leave this round
+				select {
+				case result := <-haltChannel:
+					cancel()
+					return result
+				case <-voteSent:
+				}
 			}
 		}
 	}
diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 183b86f..1d802a6 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -113,6 +113,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				sm := buf.Bytes()
 				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||2||h)
 				if err == nil {
+					//pass it on: the sender may not have sent it to everyone
+					p.Broadcast(core.Encapsulation("Halt", IDr, p.PID, payload))
 					haltChannel <- payload.Value
 					return
 				}
-- 
2.43.0


From 297694e80527aadef456175e1c66a29742a71369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 12/21] fix: an invalid or misattributed proposal no longer
 ends or misleads the receiver

---
 internal/party/pb.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index 207dd9e..36850e1 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -57,14 +57,12 @@ func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, val
 	select {
 	case <-ctx.Done():
 		return nil, nil, false
-	case m := <-p.GetMessage("Value", ID):
-		//TODO:check sender == m.Sender
-
+	case m := <-p.memberMessages(ctx, "Value", ID, sender):
 		payload := (core.Decapsulation("Value", m)).(*protobuf.Value)
 		if validator != nil {
 			err2 := validator(p, ID, sender, payload.Value, payload.Validation)
 			if err2 != nil {
-				log.Fatalln(err2)
+				log.Printf("[PB][Party %v] Value of party %v is invalid: %v\n", p.PID, sender, err2)
 				return nil, nil, false //sender is dishonest
 			}
 		}
-- 
2.43.0


From 48311a4045b8afb89ac7bc07c3bb2937801b998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 13/21] fix: agreement accepts only valid proposals, in later
 rounds only justified ones

---
 internal/party/main_process.go | 59 ++++++++++++++++++++++++++++++++--
 internal/party/spb.go          |  4 +--
 2 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 08054f4..fa01609 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -7,18 +7,23 @@ forked from https://github.com/xygdys/Buada_BFT
 import (
 	"bytes"
 	"context"
+	"errors"
 	"sync"
 
 	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
 	kyberbls "github.com/drand/kyber-bls12381"
+	"github.com/drand/kyber/sign/bls"
 	"github.com/drand/kyber/sign/tbls"
+	"golang.org/x/crypto/sha3"
 )
 
 //MainProcess is the main process of smvba instances
-func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []byte {
+//checkValue, if given, is the external validity predicate of the proposals
+func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte, checkValue ...func([]byte) error) []byte {
 	haltChannel := make(chan []byte, 1) //control all round
+	leaders := []uint32{}               //of the previous rounds
 	ctx, cancel := context.WithCancel(context.Background())
 
 	for r := uint32(0); ; r++ {
@@ -39,7 +44,16 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		voteNoChannel := make(chan []byte, 1)
 		voteOtherChannel := make(chan []byte, 1)
 
-		//TODO: CheckValue
+		//a proposal has to satisfy checkValue and, from the second round on, to be justified by the previous rounds
+		round, previous := r, leaders
+		proposalValidator := func(p *HonestParty, _ []byte, _ uint32, value []byte, validation []byte) error {
+			for _, check := range checkValue {
+				if err := check(value); err != nil {
+					return err
+				}
+			}
+			return justified(p, ID, round, previous, value, validation)
+		}
 
 		//Initialize SPB instances
 		var buf bytes.Buffer
@@ -57,7 +71,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 
 		for i := uint32(0); i < p.N; i++ {
 			go func(j uint32) {
-				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j])
+				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j], proposalValidator)
 				if ok { //save Lock
 					Lr.Store(j, &protobuf.Lock{
 						Value: value,
@@ -103,6 +117,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 			cancel()
 			return result
 		case l := <-leaderChannel:
+			leaders = append(leaders, l)
 			spbCancel()
 			wg.Wait()
 			<-doneSent //the others may need this party's coin share, even if it decides now
@@ -149,6 +164,9 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 					return value
 				} else if flag == 1 { //No
 					sig := <-voteNoChannel
+					if r == 0 {
+						validation = nil //the justification of later proposals starts here
+					}
 					validation = append(validation, sig...)
 				} else {
 					//overwrite
@@ -168,6 +186,41 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 	}
 }
 
+//justified checks that value may be proposed in round r: validation has to be the unlock proofs of all the previous rounds,
+//or a proof that the value was proposed by the leader of a previous round, followed by the unlock proofs of the later ones
+func justified(p *HonestParty, ID []byte, r uint32, leaders []uint32, value []byte, validation []byte) error {
+	if r == 0 {
+		return nil
+	}
+	sigLen := kyberbls.NewBLS12381Suite().G1().PointLen()
+	n := uint32(len(validation) / sigLen)
+	if n == 0 || n > r || len(validation) != int(n)*sigLen {
+		return errors.New("malformed justification")
+	}
+	blsScheme := bls.NewSchemeOnG1(kyberbls.NewBLS12381Suite())
+	h := sha3.Sum512(value)
+	for i := uint32(0); i < n; i++ {
+		sig := validation[int(i)*sigLen : int(i+1)*sigLen]
+		s := r - n + i //the round this proof comes from
+		IDs := append(append([]byte{}, ID...), utils.Uint32ToBytes(s)...)
+
+		err := blsScheme.Verify(p.SigPK.Commit(), append([]byte("Unlock"), IDs...), sig) //verify("Unlock"||ID||s)
+		if i == 0 && (err != nil || n < r) {
+			var buf bytes.Buffer
+			buf.Write([]byte("Echo"))
+			buf.Write(IDs)
+			buf.Write(utils.Uint32ToBytes(leaders[s]))
+			buf.WriteByte(1)
+			buf.Write(h[:])
+			err = blsScheme.Verify(p.SigPK.Commit(), buf.Bytes(), sig) //verify("Echo"||ID||s||l||1||h)
+		}
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func election(ctx context.Context, p *HonestParty, IDr []byte, doneFlageChannel chan bool) {
 	select {
 	case <-ctx.Done():
diff --git a/internal/party/spb.go b/internal/party/spb.go
index 7d8ac93..a7c6a8c 100644
--- a/internal/party/spb.go
+++ b/internal/party/spb.go
@@ -35,7 +35,7 @@ func SPBSender(ctx context.Context, p *HonestParty, ID []byte, value []byte, val
 }
 
 //SPBReceiver is run by the receiver of a instance of strong provable broadcast
-func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte) ([]byte, []byte, bool) {
+func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, proposalValidator func(*HonestParty, []byte, uint32, []byte, []byte) error) ([]byte, []byte, bool) {
 	var buf1, buf2 bytes.Buffer
 	buf1.Write(ID)
 	buf1.WriteByte(1)
@@ -44,7 +44,7 @@ func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte)
 	ID1 := buf1.Bytes()
 	ID2 := buf2.Bytes()
 
-	Receiver(ctx, p, sender, ID1, nil)
+	Receiver(ctx, p, sender, ID1, proposalValidator)
 	value, sig, ok := Receiver(ctx, p, sender, ID2, validator)
 	if !ok {
 		return nil, nil, false
-- 
2.43.0


From cc4cead826c80de1f8c83711e6ee1f317840ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 14/21] fix: refresh takes only contributors that 2F+1 members
 signed for in this handoff

---
 internal/party/ProactivizeAndShareDist.go | 39 +++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 5a33315..472ad61 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -2,6 +2,7 @@ package party
 
 import (
 	"context"
+	"errors"
 	"log"
 	"strconv"
 	"sync"
@@ -265,6 +266,33 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		//log.Printf("[Proactivize Reshare][New party %v] Reshare done\n", p.PID)
 	}()
 
+	//the statement that is signed for a verified contribution
+	contribution := func(j uint32) []byte {
+		return []byte(string(ID) + "," + strconv.FormatUint(uint64(j), 10))
+	}
+
+	//a valid MVBA proposal consists of at least t+1 different parties and a full signature for each of them
+	checkContributors := func(data []byte) error {
+		var proposal protobuf.MVBAIN
+		if err := proto.Unmarshal(data, &proposal); err != nil {
+			return err
+		}
+		if uint32(len(proposal.J)) < p.F+1 || len(proposal.Sig) != len(proposal.J) {
+			return errors.New("too few contributors or signatures")
+		}
+		var seen = make(map[uint32]bool)
+		for i, j := range proposal.J {
+			if j < 1 || j > p.N || seen[j] {
+				return errors.New("a contributor does not exist or is repeated")
+			}
+			seen[j] = true
+			if err := p.tblsScheme.VerifyRecovered(p.SigPK.Commit(), contribution(j), proposal.Sig[i]); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+
 	//Vote
 	// var SigShare = make(map[uint32]map[uint32][]byte)
 	// for i := uint32(1); i <= p.N; i++ {
@@ -322,7 +350,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				//log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v ok\n", p.PID, m.Sender)
 
 				//sign sig share for indexJ (index 0 is not used)
-				SigShare, _ := p.tblsScheme.Sign(p.SigSK, []byte(strconv.FormatUint(uint64(indexJ), 10)))
+				SigShare, _ := p.tblsScheme.Sign(p.SigSK, contribution(indexJ))
 				//prepare the Recover message
 				var RecoverMessage protobuf.Recover
 				RecoverMessage.Index = indexJ
@@ -429,7 +457,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				KZGVerifyOk := p.KZG.CheckProofSingle(&C, &wkij, &index, &vkij)
 				p.mutexKZG.Unlock()
 
-				SigShareVerifyOk := p.verifyShare(mSender, []byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare)
+				SigShareVerifyOk := p.verifyShare(mSender, contribution(k), ReceivedSigShare)
 
 				if KZGVerifyOk && (SigShareVerifyOk == nil) {
 					mutexSRec.Lock()
@@ -448,12 +476,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 					SSig[k] = append(SSig[k], SSigElement{mSender + 1, ReceivedSigShare})
 					if !CombinedFlag[k] && uint32(len(SSig[k])) >= 2*p.F+1 {
-						var tmpSig = make([][]byte, len(SSig))
+						var tmpSig = make([][]byte, len(SSig[k]))
 						for i := 0; i < len(SSig[k]); i++ {
 							tmpSig[i] = SSig[k][i].Sig
 						}
 						//converting uint32 to int is dangerous
-						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F), int(p.N))
+						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, contribution(k), tmpSig, int(2*p.F+1), int(p.N))
 						CombinedFlag[k] = true
 						//log.Printf("[Proactivize Recover][New party %v] Have combined a full signature for party %v, holding %v signatures now\n", p.PID, k, len(MVBAIn.Sig)+1)
 
@@ -467,7 +495,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							MVBASent = true
 							//the Recover messages are handled further while MVBA runs
 							go func() {
-								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}, checkContributors) //temporary solution (MainProcess means smvba.MainProcess)
 							}()
 						}
 						mutexMVBAIn.Unlock()
@@ -485,7 +513,6 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	}
 
 	//Refresh
-	//TODO: implement MVBA's verification
 	MVBAResData := <-MVBAResChan
 	var MVBARes protobuf.MVBAIN
 	proto.Unmarshal(MVBAResData, &MVBARes)
-- 
2.43.0


From 88cca562d8693e401eec524bda0f1496a7afca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 15/21] fix: a locked party must not vote No and help to unlock
 the round

---
 internal/party/main_process.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index fa01609..35bab66 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -141,7 +141,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte, che
 			//vote
 			voteSent := make(chan bool, 1)
 			go func() {
-				vote(ctx, p, IDr, l, preVoteFlagChannel, preVoteYesChannel, preVoteNoChannel, r)
+				vote(ctx, p, IDr, l, &Lr, preVoteFlagChannel, preVoteYesChannel, preVoteNoChannel, r)
 				voteSent <- true
 			}()
 
@@ -266,7 +266,29 @@ func preVote(ctx context.Context, p *HonestParty, IDr []byte, l uint32, Lr *sync
 	}
 }
 
-func vote(ctx context.Context, p *HonestParty, IDr []byte, l uint32, preVoteFlagChannel chan bool, preVoteYesChannel chan []byte, preVoteNoChannel chan []byte, r uint32) {
+func vote(ctx context.Context, p *HonestParty, IDr []byte, l uint32, Lr *sync.Map, preVoteFlagChannel chan bool, preVoteYesChannel chan []byte, preVoteNoChannel chan []byte, r uint32) {
+	if value, ok := Lr.Load(l); ok {
+		//this party has signed the leader's value in the second phase, so it must not help to unlock the round,
+		//even if 2f+1 No PreVotes arrive earlier than its own PreVote
+		lock := value.(*protobuf.Lock)
+		h := sha3.Sum512(lock.Value)
+		var buf bytes.Buffer
+		buf.Write([]byte("Echo"))
+		buf.Write(IDr)
+		buf.Write(utils.Uint32ToBytes(l))
+		buf.WriteByte(2)
+		buf.Write(h[:])
+		sigShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, buf.Bytes()) //sign("Echo"||ID||r||l||2||h)
+		voteMessage := core.Encapsulation("Vote", IDr, p.PID, &protobuf.Vote{
+			Vote:     true,
+			Value:    lock.Value,
+			Sig:      lock.Sig,
+			Sigshare: sigShare,
+		})
+		p.Broadcast(voteMessage)
+		return
+	}
+
 	select {
 	case <-ctx.Done():
 		return
-- 
2.43.0


From feccc89d2f528845efa2de98308b63e81c27c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 16/21] fix: a member that is absent or reads slowly does not
 block those that send to it

---
 pkg/core/send.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pkg/core/send.go b/pkg/core/send.go
index cdba516..d8c665c 100644
--- a/pkg/core/send.go
+++ b/pkg/core/send.go
@@ -21,7 +21,7 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 	//Make the send channel and the handle func
 	sendChannel := make(chan *protobuf.Message, MAXMESSAGE)
 	go func(conn *net.TCPConn, channel chan *protobuf.Message) {
-		//Retry to connect to node, the messages wait in the channel
+		//Retry to connect to node, the messages wait in the queue
 		for err != nil {
 			time.Sleep(time.Second)
 			conn, err = dial(hostIP, hostPort)
@@ -49,7 +49,7 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 				conn.Close()
 			}
 		}
-	}(conn, sendChannel)
+	}(conn, unbounded(sendChannel))
 
 	return sendChannel
 }
@@ -66,3 +66,24 @@ func dial(hostIP string, hostPort string) (*net.TCPConn, error) {
 	conn.SetKeepAlive(true)
 	return conn, nil
 }
+
+//unbounded hands on what arrives in the channel and keeps any number of messages meanwhile,
+//so that a node that reads slowly or never starts does not block the senders
+func unbounded(channel chan *protobuf.Message) chan *protobuf.Message {
+	out := make(chan *protobuf.Message)
+	go func() {
+		queue := []*protobuf.Message{<-channel}
+		for {
+			select {
+			case m := <-channel:
+				queue = append(queue, m)
+			case out <- queue[0]:
+				queue = queue[1:]
+				if len(queue) == 0 {
+					queue = append(queue, <-channel)
+				}
+			}
+		}
+	}()
+	return out
+}
-- 
2.43.0


From 0f0f368909bffc772615ad9eeca24223504b9ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 17/21] fix: a damaged setup key file is refused instead of
 yielding another key

---
 internal/party/keygen.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/party/keygen.go b/internal/party/keygen.go
index 975333c..428ee4e 100644
--- a/internal/party/keygen.go
+++ b/internal/party/keygen.go
@@ -2,7 +2,9 @@ package party
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/gob"
+	"fmt"
 	"github.com/drand/kyber"
 	kyberbls "github.com/drand/kyber-bls12381"
 	"github.com/drand/kyber/share"
@@ -75,7 +77,15 @@ func ReadFromFile(data interface{}, filename string) {
 	if err != nil {
 		panic(err)
 	}
-	buffer := bytes.NewBuffer(raw)
+	//the file ends with a checksum, so that a damaged file is not taken for other data
+	n := len(raw) - sha256.Size
+	if n < 0 {
+		panic(fmt.Errorf("file %q is damaged", filename))
+	}
+	if sum := sha256.Sum256(raw[:n]); !bytes.Equal(sum[:], raw[n:]) {
+		panic(fmt.Errorf("file %q is damaged", filename))
+	}
+	buffer := bytes.NewBuffer(raw[:n])
 	dec := gob.NewDecoder(buffer)
 	err = dec.Decode(data)
 	if err != nil {
@@ -129,6 +139,8 @@ func WriteToFile(data interface{}, filename string) {
 	if err != nil {
 		panic(err)
 	}
+	sum := sha256.Sum256(buffer.Bytes())
+	buffer.Write(sum[:])
 	err = ioutil.WriteFile(filename, buffer.Bytes(), 0600)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From f9a4cb6741bc363de1ad0f3fb548e061c6d209a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 18/21] fix: the node programs accept the roles their start
 script gives them

---
 cmd/DyCAPs/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/DyCAPs/main.go b/cmd/DyCAPs/main.go
index 8e4fe6d..05580dd 100644
--- a/cmd/DyCAPs/main.go
+++ b/cmd/DyCAPs/main.go
@@ -37,7 +37,7 @@ func main() {
 		sk, pk := party.SigKeyGenFix(uint32(*N), uint32(2**F+1))
 		skNew, pkNew := party.SigKeyGenFix_New(uint32(*N), uint32(2**F+1))
 		switch *option2 {
-		case "oldCommittee":
+		case "oldCommittee", "currentCommitee": //the start script uses the second name
 			OutputLog, err := os.OpenFile(*metadataPath+"/exeLogOld"+strconv.Itoa(*id), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0777)
 			if err != nil {
 				log.Fatalf("error opening file: %v", err)
@@ -72,7 +72,7 @@ func main() {
 			fmt.Fprintf(f, "ShareReduceLatencyOld, %d\n", p.ShareReduceEnd_old.Sub(p.ShareReduceStart_old).Nanoseconds())
 
 			time.Sleep(20000 * time.Second)
-		case "newCommittee":
+		case "newCommittee", "newCommitee": //the start script uses the second name
 			OutputLog, err := os.OpenFile(*metadataPath+"/exeLogNew"+strconv.Itoa(*id), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0777)
 			if err != nil {
 				log.Fatalf("error opening file: %v", err)
@@ -187,6 +187,9 @@ func main() {
 			client.Share([]byte("vssshare"))
 			log.Printf("[VSS] VSSshare done\n")
 			time.Sleep(20000 * time.Second)
+
+		default:
+			log.Fatalf("unknown option op2: %v\n", *option2)
 		}
 	}
 }
-- 
2.43.0


From fb2e8f22388f37ce78acf28c41222bd311b6887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 19/21] fix: a failed accept does not end the process, it is
 tried again

---
 pkg/core/receive.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/core/receive.go b/pkg/core/receive.go
index 5bdd1e2..4f2335f 100644
--- a/pkg/core/receive.go
+++ b/pkg/core/receive.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"log"
 	"net"
+	"time"
 
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
@@ -41,7 +42,8 @@ func MakeReceiveChannel(port string) chan *protobuf.Message {
 			conn, err3 = lis.AcceptTCP()
 			if err3 != nil {
 				fmt.Printf("receiveChannel ERROR: %v\n", err3)
-				log.Fatalln(err3)
+				time.Sleep(10 * time.Millisecond) //no file descriptors left, say: try again
+				continue
 			}
 			conn.SetKeepAlive(true)
 			//Once connect to a node, make a sub-handle func to handle this connection
-- 
2.43.0


From ecff35ef204f4d4cd4ad1d48fb46b18685148eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:00 +0000
Subject: [PATCH 20/21] fix: a short broadcast message made every receiver of a
 large committee panic

reedsolomon.Split takes the spare capacity of its argument for part of the data when it
is large enough, and then clears as many bytes beyond the message as there are data shards,
which may be more than the capacity (16 members, a message of 9 or 10 bytes).
---
 internal/party/RBC.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 347efef..fd29483 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -86,7 +86,7 @@ func (p *HonestParty) RBCReceive(ID []byte, broadcaster ...uint32) *protobuf.Mes
 
 		//encode
 		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		shards, err := RSEncoder.Split(M)
+		shards, err := RSEncoder.Split(M[:len(M):len(M)]) //with spare capacity, Split clears bytes beyond M, or even beyond its end
 		if err != nil {
 			log.Printf("[party %v] invalid RBCPropose message: %v, RBC instance ID: %s", p.PID, err, ID)
 			return
-- 
2.43.0


From 7906a17d228af218165f47ff8a4c9fcec2aa222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:37 +0000
Subject: [PATCH 21/21] fix: a member that decides by a Halt still releases its
 coin share, so that the others can elect the leader

---
 internal/party/main_process.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 35bab66..a1fefac 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -115,6 +115,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte, che
 		case result := <-haltChannel:
 			spbCancel()
 			cancel()
+			<-doneSent
 			return result
 		case l := <-leaderChannel:
 			leaders = append(leaders, l)
@@ -224,21 +225,26 @@ func justified(p *HonestParty, ID []byte, r uint32, leaders []uint32, value []by
 func election(ctx context.Context, p *HonestParty, IDr []byte, doneFlageChannel chan bool) {
 	select {
 	case <-ctx.Done():
-		return
+		//the others may need this party's coin share, even if it has decided by a Halt
+		select {
+		case <-doneFlageChannel:
+		default:
+			return
+		}
 	case <-doneFlageChannel:
-		var buf bytes.Buffer
-		buf.Write([]byte("Done"))
-		buf.Write(IDr)
-		coinName := buf.Bytes()
+	}
 
-		coinShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, coinName) //sign("Done"||ID||r||coin share)
-		doneMessage := core.Encapsulation("Done", IDr, p.PID, &protobuf.Done{
-			CoinShare: coinShare,
-		})
+	var buf bytes.Buffer
+	buf.Write([]byte("Done"))
+	buf.Write(IDr)
+	coinName := buf.Bytes()
 
-		p.Broadcast(doneMessage)
+	coinShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, coinName) //sign("Done"||ID||r||coin share)
+	doneMessage := core.Encapsulation("Done", IDr, p.PID, &protobuf.Done{
+		CoinShare: coinShare,
+	})
 
-	}
+	p.Broadcast(doneMessage)
 }
 
 func preVote(ctx context.Context, p *HonestParty, IDr []byte, l uint32, Lr *sync.Map) {
-- 
2.43.0

