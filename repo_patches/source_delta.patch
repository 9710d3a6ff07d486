From cc8d27c5f64665f6119b4214d95919232d38d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 01/17] fix: decode a frame from its own bytes only, without
 panics or touching the buffer

---
 serialapi/application_command_handler.go |  6 +++
 serialapi/discovery_nodes.go             |  4 ++
 serialapi/message.go                     | 51 +++++++++++++++++++++---
 3 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/serialapi/application_command_handler.go b/serialapi/application_command_handler.go
index 7d9b3d4..460f435 100644
--- a/serialapi/application_command_handler.go
+++ b/serialapi/application_command_handler.go
@@ -1,6 +1,8 @@
 package serialapi
 
 import (
+	"fmt"
+
 	"github.com/stampzilla/gozwave/commands"
 	"github.com/stampzilla/gozwave/commands/reports"
 )
@@ -17,6 +19,10 @@ type FuncApplicationCommandHandler struct {
 func NewApplicationCommandHandler(data []byte) (*FuncApplicationCommandHandler, error) {
 	f := &FuncApplicationCommandHandler{}
 
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong length, should be at least 2 bytes got %d", len(data))
+	}
+
 	f.Command = commands.ZWaveCommand(data[0])
 	f.Class = data[1]
 
diff --git a/serialapi/discovery_nodes.go b/serialapi/discovery_nodes.go
index 59275ae..66db590 100644
--- a/serialapi/discovery_nodes.go
+++ b/serialapi/discovery_nodes.go
@@ -18,6 +18,10 @@ func NewDiscoverdNodes(data []byte) (*DiscoverdNodes, error) {
 		return nil, fmt.Errorf("wrong length, should be at least 6 bytes got %d", len(data))
 	}
 
+	if len(data)*8 > len(f.ActiveNodes) {
+		return nil, fmt.Errorf("wrong length, should be at most %d bytes got %d", len(f.ActiveNodes)/8, len(data))
+	}
+
 	for index, bits := range data {
 		f.ActiveNodes[index*8+0] = bits&0x01 != 0
 		f.ActiveNodes[index*8+1] = bits&0x02 != 0
diff --git a/serialapi/message.go b/serialapi/message.go
index 13414f0..9c027ae 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -39,6 +39,10 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 	// NAK	0x15	21	Message NAK
 	// CAN	0x18	24	Cancel - Resend request
 
+	if len(data) == 0 {
+		return 1, nil, nil // Nothing to decode yet
+	}
+
 	switch data[0] {
 	case 0x01: // SOF
 		if len(data) < 2 {
@@ -50,16 +54,18 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 		}
 
 		checksum := data[length+1]
-		checksumData := append(data[1:length+1], byte(0x00))
+		// Work on a copy, appending to the slice would overwrite the checksum in the callers buffer
+		checksumData := append(append([]byte{}, data[1:length+1]...), byte(0x00))
 		if checksum != GenerateChecksum(checksumData) {
 			return -1, nil, fmt.Errorf("Invalid checksum, is 0x%x should be 0x%x, (len=%d)", checksum, GenerateChecksum(checksumData), length)
 		}
 
-		msg, err := NewMessage(data)
+		// Only use the bytes that belongs to this frame (excluding the checksum)
+		msg, err := NewMessage(data[:length+1])
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(data[:1])
 		if err != nil {
 			logrus.Error(err)
 		}
@@ -102,11 +108,18 @@ func CompileMessage(data []byte) []byte {
 
 // NewMessage tries to decode a binary message from the controller in to a message struct
 func NewMessage(data []byte) (*Message, error) {
+	if len(data) == 0 {
+		return nil, fmt.Errorf("To short message, got no data")
+	}
+
 	message := &Message{}
 	message.startByte = data[0]
 	if len(data) <= 1 {
 		return message, nil
 	}
+	if len(data) < 4 {
+		return nil, fmt.Errorf("To short message, expected at least 4 bytes got %d", len(data))
+	}
 	message.Length = data[1]
 	message.MessageType = data[2]
 	message.Function = ZWaveFunction(data[3])
@@ -114,15 +127,27 @@ func NewMessage(data []byte) (*Message, error) {
 	var err error
 	switch message.Function {
 	case ApplicationCommandHandler:
+		var payload []byte
+		if payload, err = payloadAt(data, 6); err != nil {
+			break
+		}
 		message.NodeID = data[5]
 
-		message.Data, err = NewApplicationCommandHandler(data[7 : 7+data[6]])
+		message.Data, err = NewApplicationCommandHandler(payload)
 	case DiscoveryNodes:
+		var payload []byte
+		if payload, err = payloadAt(data, 6); err != nil {
+			break
+		}
 
-		message.Data, err = NewDiscoverdNodes(data[7 : 7+data[6]])
+		message.Data, err = NewDiscoverdNodes(payload)
 	case GetNodeProtocolInfo:
+		info := data[4:]
+		if len(info) == 5 { // No specific device class in the answer
+			info = append(append([]byte{}, info...), 0x00)
+		}
 
-		message.Data, err = NewGetNodeProtocolInfo(data[4:])
+		message.Data, err = NewGetNodeProtocolInfo(info)
 	default:
 		err = fmt.Errorf("Dropping message function='%s' with data %x (not implemented)", message.Function, data[4:])
 	}
@@ -160,3 +185,17 @@ func NewMessage(data []byte) (*Message, error) {
 	//ForceRoute = 0x08
 
 }
+
+// payloadAt returns a copy of the length prefixed payload found at position in data
+func payloadAt(data []byte, position int) ([]byte, error) {
+	if len(data) <= position {
+		return nil, fmt.Errorf("To short message, got no payload length (len=%d)", len(data))
+	}
+
+	end := position + 1 + int(data[position])
+	if len(data) < end {
+		return nil, fmt.Errorf("To short message, expected at least %d bytes got %d", end, len(data))
+	}
+
+	return append([]byte{}, data[position+1:end]...), nil
+}
-- 
2.43.0


From 857e660bc112f6284c81b800dc1b3bf46d3689e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 02/17] fix: hand out copies of the mandatory command classes

---
 database/commandclasses.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/database/commandclasses.go b/database/commandclasses.go
index 302be97..453f4a5 100644
--- a/database/commandclasses.go
+++ b/database/commandclasses.go
@@ -4,7 +4,13 @@ package database
 func GetMandatoryCommandClasses(generic, specific byte) []*CommandClass {
 	for k, v := range definitions {
 		if k.Generic == generic && k.Specific == specific {
-			return v
+			// Return a copy, the definitions are shared by all callers
+			classes := make([]*CommandClass, 0, len(v))
+			for _, class := range v {
+				c := *class
+				classes = append(classes, &c)
+			}
+			return classes
 		}
 	}
 	return nil
-- 
2.43.0


From b5d22cdc8ebc0d953563852a164b3aa21939f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 03/17] fix: match an answer on its own bytes, without reading
 outside of it

---
 connection.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index a522409..4d0776b 100644
--- a/connection.go
+++ b/connection.go
@@ -252,7 +252,7 @@ func (conn *Connection) Reader() error {
 			if l > 1 { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
-					if !c.Match(incomming) {
+					if !c.Match(incomming[:l-1]) { // Without the checksum
 						logrus.Infof("Check match %#v", c)
 						continue
 					}
@@ -302,7 +302,7 @@ func newSendPackage(data []byte) *sendPackage {
 	if len(data) > 1 {
 		pkg.node = data[1]
 	}
-	if len(data) > 4 {
+	if len(data) > 3 {
 		pkg.commandclass = data[3]
 	}
 
@@ -313,26 +313,30 @@ func (c *sendPackage) Match(incomming []byte) bool {
 	//if len(incomming) > 3 && c.function != 0 && c.function != incomming[3] && !(c.function == serialapi.SendData && incomming[3] == 0x04) {
 
 	// SerialAPI specific
-	if !MatchByteAt(incomming, c.function, 3) && !(c.function == serialapi.SendData && MatchByteAt(incomming, serialapi.ApplicationCommandHandler, 3)) {
-		logrus.Warnf("Skipping pkg %s, function %x != %x", c.uuid, c.function, incomming[3])
+	function := c.function
+	if function == serialapi.SendData { // The answer from a node is delivered in an ApplicationCommandHandler message
+		function = serialapi.ApplicationCommandHandler
+	}
+	if !MatchByteAt(incomming, function, 3) {
+		logrus.Warnf("Skipping pkg %s, function %x not in %x", c.uuid, function, incomming)
 		return false
 	}
 
-	if c.function == serialapi.GetNodeProtocolInfo {
+	if c.function != serialapi.SendData { // The answer to a controller query has no node or command
 		return true
 	}
 
 	// Z-wave specific
 	if !MatchByteAt(incomming, c.node, 5) {
-		logrus.Warnf("Skipping pkg %s, node %x != %x", c.uuid, c.node, incomming[5])
+		logrus.Warnf("Skipping pkg %s, node %x not in %x", c.uuid, c.node, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.commandclass, 7) {
-		logrus.Warnf("Skipping pkg %s, commandclass %x is not %x", c.uuid, c.commandclass, incomming[7])
+		logrus.Warnf("Skipping pkg %s, commandclass %x is not in %x", c.uuid, c.commandclass, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.expectedReport, 8) {
-		logrus.Errorf("Skipping pkg %s, expectedReport %x is not %x", c.uuid, c.expectedReport, incomming[8])
+		logrus.Errorf("Skipping pkg %s, expectedReport %x is not in %x", c.uuid, c.expectedReport, incomming)
 		return false
 	}
 
@@ -358,7 +362,7 @@ func MatchByteAt(message []byte, b byte, position int) bool {
 		return true
 	}
 
-	if len(message) < position {
+	if len(message) <= position {
 		return false
 	}
 
-- 
2.43.0


From 444aa06d5094fb62e2d5027b56da2dec973e68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 04/17] fix: never lose, block on or crash on the answer to a
 request

---
 connection.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/connection.go b/connection.go
index 4d0776b..fb13cd6 100644
--- a/connection.go
+++ b/connection.go
@@ -45,17 +45,15 @@ type sendPackage struct {
 }
 
 func (sp *sendPackage) Close() {
-	sp.RLock()
+	sp.Lock()
+	defer sp.Unlock()
+
 	if sp.returnChan == nil {
-		sp.RUnlock()
 		return
 	}
-	sp.RUnlock()
 
-	sp.Lock()
 	close(sp.returnChan)
 	sp.returnChan = nil
-	sp.Unlock()
 }
 
 func (sp *sendPackage) IsOpen() bool {
@@ -82,17 +80,19 @@ func (conn *Connection) Write(msg interfaces.Encodable) error {
 }
 func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
 	pkg := newSendPackage(msg.Encode())
-	pkg.returnChan = make(chan *serialapi.Message)
+	returnChan := make(chan *serialapi.Message, 1) // Room for the answer, so an absent requester never blocks the delivery
+	pkg.returnChan = returnChan
 	pkg.timeout = t
 
 	conn.send <- pkg
 
-	return pkg.returnChan, nil
+	return returnChan, nil
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
-	returnChan := make(chan reports.Report)
-	pkg.returnChan = make(chan *serialapi.Message)
+	returnChan := make(chan reports.Report, 1)
+	messages := make(chan *serialapi.Message, 1) // Room for the answer, so an absent requester never blocks the delivery
+	pkg.returnChan = messages
 	pkg.timeout = t
 	pkg.expectedReport = er
 
@@ -100,7 +100,11 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 
 	go func() {
 		defer close(returnChan)
-		for msg := range pkg.returnChan {
+		for msg := range messages {
+			if msg == nil { // The answer could not be decoded
+				return
+			}
+
 			if f, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 				returnChan <- f.Report
 				return
-- 
2.43.0


From 9299d14da9dbc42d108c75037245f2f997821b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 05/17] fix: handle the controllers answer for the right
 command, deliver a frame to one request

---
 connection.go | 93 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 56 insertions(+), 37 deletions(-)

diff --git a/connection.go b/connection.go
index fb13cd6..8baecc5 100644
--- a/connection.go
+++ b/connection.go
@@ -22,6 +22,7 @@ type Connection struct {
 	send        chan *sendPackage
 	lastCommand string // Uuid of last sent command
 	lastResult  chan byte
+	written     uint64 // Number of packages written
 
 	reportCallback func(byte, reports.Report)
 
@@ -31,7 +32,8 @@ type Connection struct {
 type sendPackage struct {
 	message []byte
 	uuid    string
-	result  byte // ACK, NAC, CAN
+	result  byte   // ACK, NAC, CAN
+	order   uint64 // The order in which the packages was first written
 
 	function       byte
 	commandclass   byte
@@ -158,8 +160,13 @@ func (conn *Connection) Writer() {
 			conn.inFlight[pkg.uuid] = pkg
 			conn.lastCommand = pkg.uuid
 
-			if pkg.timeout != 0 { // Only add the message to the inflight list if someone is waiting for an response
-				go conn.timeoutWorker(pkg)
+			if pkg.order == 0 { // Not a retransmission
+				conn.written++
+				pkg.order = conn.written
+
+				if pkg.timeout != 0 { // Only if someone is waiting for an response
+					go conn.timeoutWorker(pkg)
+				}
 			}
 
 			abort := make(chan struct{})
@@ -179,7 +186,12 @@ func (conn *Connection) Writer() {
 			conn.Unlock()
 
 			<-abort
+			conn.Lock()
 			conn.lastCommand = ""
+			if !pkg.IsOpen() { // No one is waiting for an response
+				delete(conn.inFlight, pkg.uuid)
+			}
+			conn.Unlock()
 		}
 	}
 }
@@ -215,30 +227,29 @@ func (conn *Connection) Reader() error {
 			}
 
 			if l == 1 {
-				for index, c := range conn.inFlight {
-					conn.RLock()
-					if c.uuid == conn.lastCommand {
-						select {
-						case conn.lastResult <- incomming[0]:
-						case <-time.After(time.Millisecond * 50):
-						}
-
-						if msg.IsNAK() {
-							logrus.Warnf("Command failed: %s - %#v", c.uuid, c)
-							delete(conn.inFlight, index)
-							c.Close()
-						}
-
-						if msg.IsCAN() {
-							go func() {
-								<-time.After(time.Millisecond * 100)
-								conn.send <- c
-							}()
-						}
+				conn.Lock()
+				if c, ok := conn.inFlight[conn.lastCommand]; ok {
+					conn.lastCommand = "" // Only the first answer counts
+
+					select {
+					case conn.lastResult <- incomming[0]:
+					case <-time.After(time.Millisecond * 50):
+					}
+
+					if msg.IsNAK() {
+						logrus.Warnf("Command failed: %s", c.uuid)
+						delete(conn.inFlight, c.uuid)
+						c.Close()
 					}
-					conn.RUnlock()
-				}
 
+					if msg.IsCAN() {
+						go func() {
+							<-time.After(time.Millisecond * 100)
+							conn.send <- c
+						}()
+					}
+				}
+				conn.Unlock()
 			}
 
 			// The message is not compleatly read yet, wait for some more data
@@ -255,22 +266,28 @@ func (conn *Connection) Reader() error {
 
 			if l > 1 { // A message was received
 				conn.Lock()
-				for index, c := range conn.inFlight {
-					if !c.Match(incomming[:l-1]) { // Without the checksum
-						logrus.Infof("Check match %#v", c)
+				var first *sendPackage // The matching request that was written first
+				for _, c := range conn.inFlight {
+					if !c.IsOpen() || !c.Match(incomming[:l-1]) { // Without the checksum
 						continue
 					}
 
-					if c.IsOpen() {
-						select {
-						case c.returnChan <- msg: // Try to deliver message
-						case <-time.After(time.Second):
-							logrus.Warnf("Timeout writing response to requester: %#v", msg)
-						}
+					if first == nil || c.order < first.order {
+						first = c
+					}
+				}
+
+				if first != nil {
+					select {
+					case first.returnChan <- msg: // Try to deliver message
+					case <-time.After(time.Second):
+						logrus.Warnf("Timeout writing response to requester: %#v", msg)
+					}
 
-						c.Close()
+					first.Close()
+					if first.uuid != conn.lastCommand { // Keep it until the controller has answered
+						delete(conn.inFlight, first.uuid)
 					}
-					delete(conn.inFlight, index)
 				}
 				conn.Unlock()
 			}
@@ -354,7 +371,9 @@ func (conn *Connection) timeoutWorker(sp *sendPackage) {
 	for index, c := range conn.inFlight {
 		if index == sp.uuid {
 			logrus.Warnf("TIMEOUT: %s", sp.uuid)
-			delete(conn.inFlight, sp.uuid)
+			if sp.uuid != conn.lastCommand { // Keep it until the controller has answered
+				delete(conn.inFlight, sp.uuid)
+			}
 			c.Close()
 		}
 	}
-- 
2.43.0


From eaf428f11d77570570a2555049ba5447eb0990a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 06/17] fix: keep one writer and a valid port across
 reconnects, stop after a failed first connect

---
 connection.go | 38 ++++++++++++++++++++++++++++++++------
 gozwave.go    | 11 +++++++++--
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/connection.go b/connection.go
index 8baecc5..0e0260f 100644
--- a/connection.go
+++ b/connection.go
@@ -26,6 +26,8 @@ type Connection struct {
 
 	reportCallback func(byte, reports.Report)
 
+	startWriter sync.Once
+
 	sync.RWMutex
 }
 
@@ -120,12 +122,16 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 }
 
 func (conn *Connection) Connect(connectChan chan error) (err error) {
+	disconnected := make(chan struct{})
 	defer func() {
 		logrus.Error("Disonnected")
+		conn.Lock()
+		close(disconnected)
 		conn.Connected = false
+		conn.Unlock()
 	}()
 
-	conn.readWriteCloser, err = conn.portOpener.Open()
+	port, err := conn.portOpener.Open()
 
 	if err != nil {
 		select {
@@ -135,17 +141,33 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		return
 	}
 
+	conn.Lock()
+	conn.readWriteCloser = port
+	conn.Unlock()
+
 	go func() {
 		<-time.After(time.Millisecond * 200)
+		conn.Lock()
+		defer conn.Unlock()
+
+		select {
+		case <-disconnected: // The port failed while we waited
+			return
+		default:
+		}
+
 		logrus.Debug("Connected")
+		conn.Connected = true
 		select {
 		case connectChan <- nil:
 		default:
 		}
-		conn.Connected = true
 	}()
 
-	go conn.Writer()
+	// There must only be one writer, it continues with the new port after a reconnect
+	conn.startWriter.Do(func() {
+		go conn.Writer()
+	})
 	return conn.Reader()
 }
 
@@ -200,13 +222,17 @@ func (conn *Connection) Reader() error {
 	incomming := make([]byte, 0)
 	age := time.Now()
 
+	conn.RLock()
+	port := conn.readWriteCloser
+	conn.RUnlock()
+
 	for {
 		buf := make([]byte, 128)
 
-		n, err := conn.readWriteCloser.Read(buf)
+		n, err := port.Read(buf)
 		if err != nil {
 			logrus.Error("Serial read failed: ", err)
-			conn.readWriteCloser.Close()
+			port.Close()
 			return err
 		}
 
@@ -303,7 +329,7 @@ func (conn *Connection) Reader() error {
 			logrus.Debugf("Recived: %x", incomming)
 			incomming = incomming[l:]
 			if l > 1 {
-				conn.readWriteCloser.Write([]byte{0x06}) // Send ACK to stick
+				port.Write([]byte{0x06}) // Send ACK to stick
 			}
 
 		}
diff --git a/gozwave.go b/gozwave.go
index 432b3cc..b9a2418 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -26,7 +26,8 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 	var err error
 
 	c.Connection.reportCallback = c.DeliverReportToNode
-	connected := make(chan error)
+	connected := make(chan error, 1)
+	abort := make(chan struct{})
 
 	//spew.Dump(c)
 
@@ -38,12 +39,18 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 		for {
 			err := c.Connection.Connect(connected)
 			logrus.Error(err)
-			<-time.After(time.Second)
+
+			select {
+			case <-abort:
+				return
+			case <-time.After(time.Second):
+			}
 		}
 	}()
 
 	err = <-connected
 	if err != nil {
+		close(abort)
 		return nil, err
 	}
 
-- 
2.43.0


From 1284693640405d1d8dc868b666acb7d84eddf0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 07/17] fix: apply reports in the order received, end an alarm
 without blocking

---
 connection.go |  8 ++++++--
 nodes/node.go | 30 ++++++++++++++++++++++--------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/connection.go b/connection.go
index 0e0260f..fe4d7ad 100644
--- a/connection.go
+++ b/connection.go
@@ -236,6 +236,10 @@ func (conn *Connection) Reader() error {
 			return err
 		}
 
+		if n == 0 {
+			continue
+		}
+
 		//fmt.Println(hex.Dump(buf[:n]))
 
 		// If data in buffer is older than 40ms, clear buffer before appending data
@@ -320,8 +324,8 @@ func (conn *Connection) Reader() error {
 
 			if msg != nil {
 				if cmd, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
-					// Deliver the update to the parent
-					go conn.reportCallback(msg.NodeID, cmd.Report)
+					// Deliver the update to the parent, one at a time to keep the order
+					conn.reportCallback(msg.NodeID, cmd.Report)
 				}
 			}
 
diff --git a/nodes/node.go b/nodes/node.go
index 5771623..21797b1 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -53,6 +53,7 @@ type Node struct {
 	pushEventFunc func(interface{})
 
 	awake      chan struct{}
+	alarms     int // Number of active alarms received
 	identified bool
 
 	sync.RWMutex
@@ -95,15 +96,10 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
 			})
-			n.Unlock()
 
-			<-time.After(time.Second)
-			n.Lock()
-			n.StateBool["alarm"] = false
-			n.StateFloat["alarm"] = 0
-			n.pushEvent(events.NodeUpdated{
-				Address: n.Id,
-			})
+			// Reset the alarm later on, without blocking other reports
+			n.alarms++
+			go n.resetAlarm(n.alarms)
 		}
 	case *reports.WakeUp:
 		logrus.Error("NODE RECEIVED WAKEUP")
@@ -144,6 +140,24 @@ func (n *Node) ProcessEvent(event reports.Report) {
 
 }
 
+// resetAlarm ends the alarm after one second, unless a newer alarm was received in the meantime
+func (n *Node) resetAlarm(alarm int) {
+	<-time.After(time.Second)
+
+	n.Lock()
+	defer n.Unlock()
+
+	if n.alarms != alarm {
+		return
+	}
+
+	n.StateBool["alarm"] = false
+	n.StateFloat["alarm"] = 0
+	n.pushEvent(events.NodeUpdated{
+		Address: n.Id,
+	})
+}
+
 func (n *Node) GetID() int {
 	n.RLock()
 	defer n.RUnlock()
-- 
2.43.0


From da2feb21dd628ac0ad337b0ecbf6fb05b5350df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 08/17] fix: list and serialise nodes under their locks, return
 a snapshot

---
 nodes/list.go | 22 ++++++++--------------
 nodes/node.go | 10 ++++++++++
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/nodes/list.go b/nodes/list.go
index 297f673..dc885b5 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -37,27 +37,21 @@ func (l *List) Add(node *Node) {
 	l.Unlock()
 }
 
-func (l List) All() map[int]*Node {
+// All returns a snapshot of the nodes in the list
+func (l *List) All() map[int]*Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	for _, v := range l.nodes {
-		v.RLock()
-		defer v.RUnlock()
+	nodes := make(map[int]*Node, len(l.nodes))
+	for k, v := range l.nodes {
+		nodes[k] = v
 	}
-
-	return l.nodes
+	return nodes
 }
 
-func (l List) Get(id int) *Node {
+func (l *List) Get(id int) *Node {
 	l.RLock()
 	defer l.RUnlock()
-
-	if l.nodes[id] != nil {
-		l.nodes[id].RLock()
-		defer l.nodes[id].RUnlock()
-	}
-
 	return l.nodes[id]
 }
 
@@ -67,7 +61,7 @@ func (l List) Get(id int) *Node {
 //l.Unlock()
 //}
 
-func (l List) MarshalJSON() ([]byte, error) {
+func (l *List) MarshalJSON() ([]byte, error) {
 	s := make(map[string]*Node)
 
 	for k, v := range l.All() {
diff --git a/nodes/node.go b/nodes/node.go
index 21797b1..c4f6cee 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -1,6 +1,7 @@
 package nodes
 
 import (
+	"encoding/json"
 	"strings"
 	"sync"
 	"time"
@@ -67,6 +68,15 @@ func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{
 	n.pushEventFunc = pushEventFunc
 }
 
+// MarshalJSON makes sure that the node does not change while it is serialised
+func (n *Node) MarshalJSON() ([]byte, error) {
+	n.RLock()
+	defer n.RUnlock()
+
+	type node Node // Without this method
+	return json.Marshal((*node)(n))
+}
+
 func (n *Node) isAwake() chan struct{} {
 	if n.IsAwake {
 		c := make(chan struct{})
-- 
2.43.0


From 2ab563e86fa153c8b72cced0cc2577b611b9bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 09/17] fix: replace the configuration file atomically and only
 when changed, survive a damaged one

---
 controller.go | 49 ++++++++++++++++++++++++++++++++++---------------
 nodes/list.go |  4 ++++
 nodes/node.go | 41 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 79 insertions(+), 15 deletions(-)

diff --git a/controller.go b/controller.go
index 841c7c3..f2ba26b 100644
--- a/controller.go
+++ b/controller.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
-	"reflect"
 	"sync"
 	"time"
 
@@ -23,6 +22,7 @@ type Controller struct {
 
 	filename        string
 	triggerFileSave chan struct{}
+	saving          sync.Mutex
 
 	sync.RWMutex
 }
@@ -132,30 +132,46 @@ func (c *Controller) DeliverReportToNode(node byte, report reports.Report) {
 }
 
 func (c *Controller) SaveConfigurationToFile() error {
-	controller, err := c.loadConfigurationFromFile()
-	if err == nil {
-		if reflect.DeepEqual(c, controller) {
-			return nil
-		}
+	c.saving.Lock()
+	defer c.saving.Unlock()
+
+	b, err := json.MarshalIndent(c, "", "\t")
+	if err != nil {
+		logrus.Error("error marshal json", err)
+		return err
 	}
 
-	configFile, err := os.Create(c.filename)
+	if current, err := os.ReadFile(c.filename); err == nil && bytes.Equal(current, b) {
+		return nil
+	}
+
+	// Write to a temporary file and replace the config file when its done, so there always is a complete config file
+	tmp := c.filename + ".tmp"
+	configFile, err := os.Create(tmp)
 	if err != nil {
 		logrus.Error("creating config file", err.Error())
+		return err
 	}
-	defer configFile.Close()
 
 	logrus.Info("Save config: ", c.filename)
-	var out bytes.Buffer
-	b, err := json.MarshalIndent(c, "", "\t")
+	_, err = configFile.Write(b)
+	if err == nil {
+		err = configFile.Sync()
+	}
+	if cerr := configFile.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp, c.filename)
+	}
 	if err != nil {
-		logrus.Error("error marshal json", err)
+		logrus.Error("writing config file", err.Error())
+		os.Remove(tmp)
 	}
-	json.Indent(&out, b, "", "\t")
-	out.WriteTo(configFile)
 
-	return nil
+	return err
 }
+
 func (c *Controller) LoadConfigurationFromFile() error {
 	controller, err := c.loadConfigurationFromFile()
 	if err != nil {
@@ -181,9 +197,12 @@ func (c *Controller) loadConfigurationFromFile() (*Controller, error) {
 
 	controller := &Controller{}
 	jsonParser := json.NewDecoder(configFile)
-	if err = jsonParser.Decode(&controller); err != nil {
+	if err = jsonParser.Decode(controller); err != nil {
 		return nil, err
 	}
+	if controller.Nodes == nil {
+		return nil, fmt.Errorf("no nodes in config file %s", c.filename)
+	}
 
 	return controller, nil
 }
diff --git a/nodes/list.go b/nodes/list.go
index dc885b5..fc69c45 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -79,6 +79,10 @@ func (l *List) UnmarshalJSON(data []byte) error {
 	}
 
 	for _, v := range s {
+		if v == nil {
+			continue
+		}
+		v.restore()
 		l.Add(v)
 	}
 
diff --git a/nodes/node.go b/nodes/node.go
index c4f6cee..33f0e9a 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -77,6 +77,47 @@ func (n *Node) MarshalJSON() ([]byte, error) {
 	return json.Marshal((*node)(n))
 }
 
+// restore makes a node that was read from a configuration file, maybe an incomplete one, usable
+func (n *Node) restore() {
+	if n.StateBool == nil {
+		n.StateBool = make(map[string]bool)
+	}
+	if n.StateFloat == nil {
+		n.StateFloat = make(map[string]float64)
+	}
+	if n.pushEventFunc == nil {
+		n.pushEventFunc = func(interface{}) {}
+	}
+
+	n.CommandClasses = withoutNil(n.CommandClasses)
+
+	var endpoints []*Endpoint
+	for _, e := range n.Endpoints {
+		if e != nil {
+			e.CommandClasses = withoutNil(e.CommandClasses)
+			endpoints = append(endpoints, e)
+		}
+	}
+	if endpoints != nil || len(n.Endpoints) > 0 {
+		n.Endpoints = endpoints
+	}
+}
+
+func withoutNil(classes []*database.CommandClass) []*database.CommandClass {
+	for _, c := range classes {
+		if c == nil {
+			var ret []*database.CommandClass
+			for _, c := range classes {
+				if c != nil {
+					ret = append(ret, c)
+				}
+			}
+			return ret
+		}
+	}
+	return classes
+}
+
 func (n *Node) isAwake() chan struct{} {
 	if n.IsAwake {
 		c := make(chan struct{})
-- 
2.43.0


From 9312395f920bc7da646d5c8bbbcab4410fe1f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 10/17] fix: set up a discovered node before it can be found

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index f2ba26b..6a51609 100644
--- a/controller.go
+++ b/controller.go
@@ -79,12 +79,12 @@ func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	}
 
 	node = nodes.New(id)
+	node.Setup(c.Connection, c.pushEvent) // Before anyone else can find it
 	c.Nodes.Add(node)
 	c.pushEvent(events.NodeDiscoverd{
 		Address: node.Id,
 	})
 
-	node.Setup(c.Connection, c.pushEvent)
 	return node
 }
 
-- 
2.43.0


From e19a55b2d241fbfa5bd7c33b44fee2ae6494ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 11/17] fix: keep the command classes of the product during
 identification

---
 nodes/node.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/nodes/node.go b/nodes/node.go
index 33f0e9a..1f89ba5 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -237,11 +237,14 @@ func (n *Node) Identify() {
 			n.Unlock()
 		}
 
-		// set basic commandClasses
+		// set basic commandClasses, and the ones of the product when its known
 		classes := database.GetMandatoryCommandClasses(n.ProtocolInfo().Generic, n.ProtocolInfo().Specific)
 
 		n.Lock()
 		n.CommandClasses = classes
+		if n.ManufacurerSpecific != nil {
+			n.addProductCommandClasses(database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID))
+		}
 		n.Unlock()
 
 		//<-self.Connection.SendRaw([]byte{serialapi.GetNodeProtocolInfo, byte(index + 1)}) // Request node information
@@ -264,9 +267,7 @@ func (n *Node) Identify() {
 				n.Brand = dev.Brand
 				n.Product = dev.Product
 				n.Description = dev.Description
-				for _, v := range dev.CommandClasses {
-					n.CommandClasses = append(n.CommandClasses, v)
-				}
+				n.addProductCommandClasses(dev)
 			}
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
@@ -366,6 +367,24 @@ func (n *Node) Identify() {
 	}
 }
 
+// addProductCommandClasses adds the command classes of a product to the mandatory ones
+func (n *Node) addProductCommandClasses(dev *database.Device) {
+	if dev == nil {
+		return
+	}
+
+	known := make(map[commands.ZWaveCommand]bool)
+	for _, v := range n.CommandClasses {
+		known[v.ID] = true
+	}
+	for _, v := range dev.CommandClasses {
+		if !known[v.ID] {
+			known[v.ID] = true
+			n.CommandClasses = append(n.CommandClasses, v)
+		}
+	}
+}
+
 func (n *Node) pushEvent(event interface{}) {
 	n.pushEventFunc(event)
 }
-- 
2.43.0


From 4716207f6fc82922daa25e6e1b4310b057510b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 12/17] fix: guard the wakeup channel and the command classes
 with the nodes lock

---
 nodes/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 1f89ba5..1be2dd9 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -119,6 +119,9 @@ func withoutNil(classes []*database.CommandClass) []*database.CommandClass {
 }
 
 func (n *Node) isAwake() chan struct{} {
+	n.Lock()
+	defer n.Unlock()
+
 	if n.IsAwake {
 		c := make(chan struct{})
 		close(c)
@@ -390,6 +393,9 @@ func (n *Node) pushEvent(event interface{}) {
 }
 
 func (n *Node) HasCommand(c commands.ZWaveCommand) bool {
+	n.RLock()
+	defer n.RUnlock()
+
 	if n.CommandClasses == nil {
 		return false
 	}
-- 
2.43.0


From 477f07cd906a88569731672c8ac06224df453040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 13/17] fix: create all endpoints and look them up by their
 number

---
 nodes/endpoints.go         | 11 ++++++++---
 nodes/request_endpoints.go |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 19ef2a0..fb98ac6 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,11 +23,16 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
-	if id > len(n.Endpoints) {
-		return nil
+	n.RLock()
+	defer n.RUnlock()
+
+	for _, e := range n.Endpoints {
+		if e.Id == id {
+			return e
+		}
 	}
 
-	return n.Endpoints[id]
+	return nil
 }
 
 func (e *Endpoint) Write(msg interfaces.Encodable) {
diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index da20149..d46958a 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -51,7 +51,7 @@ func (n *Node) RequestEndpoints() error {
 			logrus.Debug(cmd.String())
 			n.Lock()
 			n.Endpoints = make([]*Endpoint, 0)
-			for i := 1; i < cmd.Endpoints; i++ {
+			for i := 1; i <= cmd.Endpoints; i++ {
 				n.Endpoints = append(n.Endpoints, &Endpoint{
 					Id:             i,
 					CommandClasses: n.CommandClasses,
-- 
2.43.0


From 1be2e015085fca5ca41968cbf0498b4995f8c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 14/17] fix: record rows in order, from copies and in one
 stream

---
 serialrecorder/serialrecorder.go | 48 +++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 92453b1..31b0f1e 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/tarm/serial"
@@ -17,6 +18,10 @@ type serialRecorder struct {
 	Logger io.Writer
 
 	writeBuffer chan *Row
+
+	startLogWriter sync.Once
+	logMutex       sync.Mutex // Keeps the rows in order
+	sync.RWMutex              // Guards the port
 }
 
 // Row logs one serial read or write
@@ -37,22 +42,29 @@ func New(port string, baud int) *serialRecorder {
 }
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
-	n, err = sr.serial.Read(p)
-	go sr.writeToLog(DirectionRead, p[:n])
+	n, err = sr.current().Read(p)
+	sr.writeToLog(DirectionRead, p[:n])
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
-	n, err = sr.serial.Write(p)
-	go sr.writeToLog(DirectionWrite, p[:n])
+	n, err = sr.current().Write(p)
+	sr.writeToLog(DirectionWrite, p[:n])
 	return
 }
 
 func (sr *serialRecorder) writeToLog(d Direction, data []byte) {
+	if len(data) == 0 {
+		return
+	}
+
+	sr.logMutex.Lock()
+	defer sr.logMutex.Unlock()
+
 	sr.writeBuffer <- &Row{
 		Timestamp: time.Now(),
 		Direction: d,
-		Data:      data,
+		Data:      append([]byte{}, data...), // The caller can reuse its buffer
 	}
 }
 
@@ -68,12 +80,28 @@ func (sr *serialRecorder) logWriter() {
 }
 
 func (sr *serialRecorder) Close() error {
-	return sr.serial.Close()
+	return sr.current().Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
-	go sr.logWriter()
+	// There must only be one log writer, the log is one stream also if the port is reopened
+	sr.startLogWriter.Do(func() {
+		go sr.logWriter()
+	})
+
+	port, err := serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
+	if err != nil {
+		return nil, err
+	}
+
+	sr.Lock()
+	sr.serial = port
+	sr.Unlock()
+
+	return sr, nil
+}
 
-	var err error
-	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-	return sr, err
+func (sr *serialRecorder) current() io.ReadWriteCloser {
+	sr.RLock()
+	defer sr.RUnlock()
+	return sr.serial
 }
-- 
2.43.0


From 7f91fd16e61b56ce40a0cff6fd14ef5612fa9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 15/17] fix: print the last rows of a recording

---
 .../serialrecordingtohex.go                   | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index a545385..2ff35f4 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -76,8 +76,15 @@ func main() {
 		}
 	}
 
+	// Add what is left in the buffers
+	for _, l := range []*logRowCombiner{&reads, &writes} {
+		if c := l.flush(); c != nil {
+			combinedRows = append(combinedRows, *c)
+		}
+	}
+
 	// Sort the rows and print them out
-	sort.Sort(combinedRows)
+	sort.Stable(combinedRows)
 	for _, v := range combinedRows {
 		if v.Direction.IsRead() && !read {
 			continue
@@ -128,14 +135,23 @@ func (l *logRowCombiner) combine(r serialrecorder.Row) *row {
 		return nil
 	}
 
-	combinedRow := &row{
-		Timestamp: l.prev.Timestamp,
-		Direction: l.prev.Direction,
-		Data:      l.buf,
-	}
+	combinedRow := l.flush()
 
 	l.buf = r.Data
 	l.prev = r
 
 	return combinedRow
 }
+
+// flush returns the combined row that is in the buffer, if any
+func (l *logRowCombiner) flush() *row {
+	if (l.prev.Timestamp == time.Time{}) {
+		return nil
+	}
+
+	return &row{
+		Timestamp: l.prev.Timestamp,
+		Direction: l.prev.Direction,
+		Data:      l.buf,
+	}
+}
-- 
2.43.0


From 00f3ccab8121f4ce7cdb6a03d632d33e5ee4aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 16/17] fix: reject sensor readings of an unsupported size

---
 commands/reports/sensor_multi_level.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commands/reports/sensor_multi_level.go b/commands/reports/sensor_multi_level.go
index 0008f98..fa92108 100644
--- a/commands/reports/sensor_multi_level.go
+++ b/commands/reports/sensor_multi_level.go
@@ -93,6 +93,8 @@ func NewSensorMultiLevel(data []byte) (*SensorMultiLevel, error) {
 		val := int32(0)
 		err = binary.Read(buf, binary.BigEndian, &val)
 		sml.Value = float64(val)
+	case 3, 5, 6, 7:
+		return nil, fmt.Errorf("Unsupported value size, got %d bytes", sml.Size)
 	}
 
 	if sml.Precision > 0 {
-- 
2.43.0


From cc36d542cc19fa800ca9b767eb63e5719c97a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 17/17] fix: ask for the protocol info of one node at a time

---
 connection.go          |  8 ++++++++
 nodes/protocol_info.go | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/connection.go b/connection.go
index fe4d7ad..162d0f0 100644
--- a/connection.go
+++ b/connection.go
@@ -27,6 +27,7 @@ type Connection struct {
 	reportCallback func(byte, reports.Report)
 
 	startWriter sync.Once
+	exclusive   chan struct{} // Room for one query at a time
 
 	sync.RWMutex
 }
@@ -72,6 +73,7 @@ func NewConnection() *Connection {
 		inFlight:       make(map[string]*sendPackage),
 		send:           make(chan *sendPackage),
 		lastResult:     make(chan byte),
+		exclusive:      make(chan struct{}, 1),
 		reportCallback: func(byte, reports.Report) {},
 	}
 	return z
@@ -121,6 +123,12 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 	return returnChan, nil
 }
 
+// Exclusive waits until no one else has reserved the controller and reserves it until release is called
+func (conn *Connection) Exclusive() (release func()) {
+	conn.exclusive <- struct{}{}
+	return func() { <-conn.exclusive }
+}
+
 func (conn *Connection) Connect(connectChan chan error) (err error) {
 	disconnected := make(chan struct{})
 	defer func() {
diff --git a/nodes/protocol_info.go b/nodes/protocol_info.go
index f2fd626..4ab1ffe 100644
--- a/nodes/protocol_info.go
+++ b/nodes/protocol_info.go
@@ -15,7 +15,17 @@ func (n *Node) ProtocolInfo() *serialapi.FuncGetNodeProtocolInfo {
 	return n.protocolInfo
 }
 
+// exclusive is implemented by connections that can reserve the controller for one query at a time
+type exclusive interface {
+	Exclusive() (release func())
+}
+
 func (n *Node) RequestProtocolInfo() (*serialapi.FuncGetNodeProtocolInfo, error) {
+	// The answer does not tell which node it belongs to, so there must only be one unanswered query
+	if c, ok := n.connection.(exclusive); ok {
+		defer c.Exclusive()()
+	}
+
 	cmd := serialapi.NewRaw(
 		[]byte{
 			serialapi.GetNodeProtocolInfo, // Function
-- 
2.43.0

