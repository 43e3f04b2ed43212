From 5548468c60ba2d70b058b74cf6be07df476ddabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 01/40] fix: build the request header inside the exclusive
 exchange

The header sequence counter was incremented before the client lock was
taken, a data race between concurrent callers.
---
 sendreceive.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sendreceive.go b/sendreceive.go
index ad1efd2..ab9e385 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -77,11 +77,12 @@ func (client *Client) sendData(b []byte) error {
 
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
+	client.mutex.Lock()
 	buffer, err := client.sendMsgBuild(cmd, msgs...)
 	if err != nil {
+		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	client.mutex.Lock()
 
 	err = client.sendData(buffer)
 	if err != nil {
-- 
2.43.0


From 1e15aee3df82fe5325bb1e2abe47dc2170ae67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 02/40] fix: run at most one keepalive loop and close its
 signal once

KeepAlive only warned when a loop was already running, Disconnect and
KeepAliveCancel closed the channel again (or closed a nil channel), and
the fields were accessed without the client lock.
---
 connect.go    | 21 +++++++++++++++++----
 disconnect.go | 18 ++++++++++++++----
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/connect.go b/connect.go
index 83ca1b4..564d914 100644
--- a/connect.go
+++ b/connect.go
@@ -196,14 +196,27 @@ func (client *Client) KeepAlive() {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
 		return
 	}
+	cancel := make(chan struct{})
+	client.mutex.Lock()
 	if client.keepAliveRunning {
+		client.mutex.Unlock()
 		err := errors.New("keepalive already running")
 		client.Logger.Warn(err.Error())
+		return
 	}
-	client.Logger.Debug("starting keep alive")
-	client.cancel_keepalive = make(chan struct{})
+	client.cancel_keepalive = cancel
 	client.keepAliveRunning = true
-	defer func() { client.keepAliveRunning = false }()
+	client.mutex.Unlock()
+	client.Logger.Debug("starting keep alive")
+	defer func() {
+		client.mutex.Lock()
+		defer client.mutex.Unlock()
+		// a newer loop may have been started after this one was cancelled.
+		if client.cancel_keepalive == cancel {
+			client.cancel_keepalive = nil
+			client.keepAliveRunning = false
+		}
+	}()
 
 	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
@@ -264,7 +277,7 @@ func (client *Client) KeepAlive() {
 				originalProps = newProps
 			}
 
-		case <-client.cancel_keepalive:
+		case <-cancel:
 			client.KeepAliveAutoStart = false
 			return
 		}
diff --git a/disconnect.go b/disconnect.go
index d32051c..3c3e56d 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -65,9 +65,7 @@ func (client *Client) Disconnect() error {
 		client.mutex.Unlock()
 	}()
 
-	if client.keepAliveRunning {
-		close(client.cancel_keepalive)
-	}
+	client.stopKeepAlive()
 
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{} // null item
@@ -147,10 +145,22 @@ func (client *Client) KeepAliveCancel(force bool) error {
 	if client.KeepAliveAutoStart && !force {
 		return fmt.Errorf("unable to cancel keepalive due to AutoKeepAlive == true")
 	}
-	close(client.cancel_keepalive)
+	client.stopKeepAlive()
 	return nil
 }
 
+// stopKeepAlive tells the running keepalive loop, if there is one, to stop.
+// It does nothing if no loop is running or it was already told to stop.
+func (client *Client) stopKeepAlive() {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	if client.cancel_keepalive != nil {
+		close(client.cancel_keepalive)
+		client.cancel_keepalive = nil
+		client.keepAliveRunning = false
+	}
+}
+
 type msgCipUnRegister struct {
 	Service                CIPService
 	CipPathSize            byte
-- 
2.43.0


From 68e371f9861c554f90b52504701ec18603a657f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 03/40] fix: close the TCP connection when connecting or
 disconnecting fails

Connect leaked the dialled connection when registering or opening failed,
and Disconnect returned without closing it when its message could not be
built, contrary to its documentation.
---
 connect.go    | 3 +++
 disconnect.go | 8 +++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/connect.go b/connect.go
index 564d914..bbe1ca7 100644
--- a/connect.go
+++ b/connect.go
@@ -75,6 +75,9 @@ func (client *Client) Connect() error {
 	success := false
 	defer func() {
 		if !success {
+			if client.conn != nil {
+				client.conn.Close()
+			}
 			client.mutex.Lock()
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
diff --git a/disconnect.go b/disconnect.go
index 3c3e56d..b9a3d56 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -60,6 +60,9 @@ func (client *Client) Disconnect() error {
 
 	// No matter what happens, when we finish here, we'll consider the connection disconnected.
 	defer func() {
+		if err := client.conn.Close(); err != nil {
+			client.Logger.Error("error closing connection", slog.Any("err", err))
+		}
 		client.mutex.Lock()
 		client.connStatus = connectionStatusDisconnected
 		client.mutex.Unlock()
@@ -130,11 +133,6 @@ func (client *Client) Disconnect() error {
 		}
 	}
 
-	err = client.conn.Close()
-	if err != nil {
-		client.Logger.Error("error closing connection", slog.Any("err", err))
-	}
-
 	client.Logger.Info("successfully disconnected from controller")
 	return nil
 }
-- 
2.43.0


From 9fa4eb67e34378633187a985fb4c6546aa5007ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 04/40] fix: create the name cache under its lock in Connect

newIOI no longer holds that lock while it asks the controller for its
firmware, which can connect.
---
 connect.go | 2 ++
 ioi.go     | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/connect.go b/connect.go
index bbe1ca7..cd2e14f 100644
--- a/connect.go
+++ b/connect.go
@@ -125,9 +125,11 @@ func (client *Client) Connect() error {
 		}
 	}
 
+	client.ioi_cache_lock.Lock()
 	if client.ioi_cache == nil {
 		client.ioi_cache = make(map[string]*tagIOI)
 	}
+	client.ioi_cache_lock.Unlock()
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
 	client.conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
diff --git a/ioi.go b/ioi.go
index 0ae72ff..f3a24a1 100644
--- a/ioi.go
+++ b/ioi.go
@@ -105,6 +105,9 @@ const defaultIOIBufferSize = 256
 // The IOI is the tag name structure that CIP requires.  It's parsed out into tag length, tag name pairs with additional
 // data on the backside to indicate what index is requested if needed.
 func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err error) {
+	// this may have to ask the controller, so don't hold the lock while doing it.
+	firmware := client.firmware()
+
 	client.ioi_cache_lock.Lock()
 	defer client.ioi_cache_lock.Unlock()
 
@@ -117,7 +120,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	tagpath = strings.ToLower(tagpath)
 
 	// on firmwares greater than 20, we can do some optimizations.
-	if client.firmware() > 20 {
+	if firmware > 20 {
 		tag_info, ok := client.KnownTags[tagpath]
 		if ok {
 			// we'll assume the user knows what they're doing if they're dumping data into a struct.
-- 
2.43.0


From a8d9f0c56d0bfa1534ba4cc94fe871cb21ee4693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 05/40] fix: a refused session registration fails the connect

---
 connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/connect.go b/connect.go
index cd2e14f..f53f0a1 100644
--- a/connect.go
+++ b/connect.go
@@ -192,6 +192,11 @@ func (client *Client) registerSession() error {
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	if header.Status != 0 {
+		msg := "session registration refused"
+		client.Logger.Error(msg, slog.Any("status", header.Status))
+		return fmt.Errorf("%s. status: 0x%X", msg, header.Status)
+	}
 	client.SessionHandle = header.SessionHandle
 	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
 	return nil
-- 
2.43.0


From 83359068383e1764d2e564373a3f8c8d828d6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 06/40] fix: operations on a client that was never connected
 return an error

---
 connect.go     | 11 ++++++++---
 sendreceive.go | 11 ++++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/connect.go b/connect.go
index f53f0a1..b8cb447 100644
--- a/connect.go
+++ b/connect.go
@@ -73,10 +73,11 @@ func (client *Client) Connect() error {
 		return err
 	}
 	success := false
+	var conn net.Conn
 	defer func() {
 		if !success {
-			if client.conn != nil {
-				client.conn.Close()
+			if conn != nil {
+				conn.Close()
 			}
 			client.mutex.Lock()
 			client.connStatus = connectionStatusDisconnected
@@ -132,12 +133,16 @@ func (client *Client) Connect() error {
 	client.ioi_cache_lock.Unlock()
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
-	client.conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
+	conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
 	if err != nil {
 		msg := "cannot connect to controller"
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	// only an established connection replaces the old one so conn never becomes nil again.
+	client.mutex.Lock()
+	client.conn = conn
+	client.mutex.Unlock()
 
 	err = client.registerSession()
 	if err != nil {
diff --git a/sendreceive.go b/sendreceive.go
index ab9e385..23ef1b5 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"time"
 )
@@ -78,6 +79,10 @@ func (client *Client) sendData(b []byte) error {
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
 	client.mutex.Lock()
+	if client.conn == nil {
+		client.mutex.Unlock()
+		return eipHeader{}, nil, errors.New("client has never been connected")
+	}
 	buffer, err := client.sendMsgBuild(cmd, msgs...)
 	if err != nil {
 		client.mutex.Unlock()
@@ -152,7 +157,11 @@ func (client *Client) recvData() (eipHeader, *bytes.Buffer, error) {
 }
 
 func (client *Client) DebugCloseConn() {
-	client.conn.Close()
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	if client.conn != nil {
+		client.conn.Close()
+	}
 }
 
 func (client *Client) newEIPHeader(cmd CIPCommand, size int) (hdr eipHeader) {
-- 
2.43.0


From acbc96caa202c3375573e55ecfdafe5dff28534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 07/40] fix: GetAttrList draws its sequence count from the same
 counter as the other requests

---
 getattr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/getattr.go b/getattr.go
index bf1e9ac..7035fc5 100644
--- a/getattr.go
+++ b/getattr.go
@@ -253,7 +253,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(client.sequenceNumber.Add(1)),
+		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetAttributeList,
 		PathLength:    byte(path.Len() / 2),
 	}
-- 
2.43.0


From 6d1f45830e86df16430ed47a314f706762d4ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 08/40] fix: a socket failure during the large forward open
 fails the connect

---
 connect.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/connect.go b/connect.go
index b8cb447..b9749f7 100644
--- a/connect.go
+++ b/connect.go
@@ -154,7 +154,12 @@ func (client *Client) Connect() error {
 		if err != nil {
 			return err
 		}
-		err = client.forwardOpen(item)
+		answered, err := client.forwardOpen(item)
+		if err != nil && !answered {
+			// the reply to this request may still arrive, so nothing else can be sent on this socket.
+			client.Logger.Error("unable to open connection", slog.Any("err", err))
+			return err
+		}
 		if err != nil {
 			client.Logger.Warn("Large forward open failed. Not all devices support this.  Falling back to standard forward open", slog.Any("err", err))
 			client.ConnectionSize = connSizeStandardDefault
@@ -165,7 +170,7 @@ func (client *Client) Connect() error {
 		if err != nil {
 			return err
 		}
-		err = client.forwardOpen(item)
+		_, err = client.forwardOpen(item)
 		if err != nil {
 			client.Logger.Error("unable to open connection", slog.Any("err", err))
 			return err
@@ -504,33 +509,34 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 	return item, nil
 }
 
-func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
+// forwardOpen reports whether the device answered the request and whether the connection was opened.
+func (client *Client) forwardOpen(forwardOpenMsg CIPItem) (answered bool, err error) {
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = CIPItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqItems[1] = forwardOpenMsg
 	itemData, err := serializeItems(reqItems)
 	if err != nil {
 		client.Logger.Error("error serializing items", slog.Any("err", err))
-		return err
+		return false, err
 	}
 
 	header, data, err := client.send_recv_data(cipCommandSendRRData, itemData)
 	if err != nil {
 		client.Logger.Error("error sending data", slog.Any("err", err))
-		return err
+		return false, err
 	}
 
 	items, err := client.parseResponse(&header, data)
 	if err != nil {
 		client.Logger.Error("error parsing response", slog.Any("err", err))
-		return err
+		return true, err
 	}
 
 	respContent := msgCipForwardOpenReply{}
 	err = items[1].DeSerialize(&respContent)
 	if err != nil {
 		client.Logger.Error("error deserializing forward open response", slog.Any("err", err))
-		return fmt.Errorf("error deserializing forward open response content. %w", err)
+		return true, fmt.Errorf("error deserializing forward open response content. %w", err)
 	}
 
 	client.OTNetworkConnectionID = respContent.OtNetworkConnectionId
@@ -541,7 +547,7 @@ func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
 		slog.Any("OTNetworkConnectionId", respContent.OtNetworkConnectionId),
 	)
 
-	return nil
+	return true, nil
 }
 
 type msgCipForwardOpenReply struct {
-- 
2.43.0


From 9ebfd3cc958b4d361570fd719c404ca04a13705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 09/40] fix: browsing stops when the connection is lost

---
 listalltags.go | 3 +++
 listmembers.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/listalltags.go b/listalltags.go
index 9df6b54..575c8a3 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -293,6 +293,9 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		if tag_ftr.Template_ID() != 0 { //&& !tag_ftr.PreDefined() {
 			client.Logger.Debug("Looking up template", "tag name", tag_string)
 			u, err := client.ListMembers(uint32(tag_ftr.Template_ID()))
+			if err != nil && !client.Connected() {
+				return fmt.Errorf("lost connection listing members of %s: %w", tag_string, err)
+			}
 			if err != nil {
 				client.Logger.Error("problem reading member list",
 					"string", tag_string,
diff --git a/listmembers.go b/listmembers.go
index 914a954..279de8f 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -269,6 +269,9 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		if id != 0 {
 			// this is a UDT
 			d2, err := client.ListMembers(uint32(descriptor.Members[i].Template_ID()))
+			if err != nil && !client.Connected() {
+				return UDTDescriptor{}, fmt.Errorf("lost connection listing members of %s: %w", fieldname, err)
+			}
 			if err == nil {
 				descriptor.Members[i].UDT = &d2
 			} else {
-- 
2.43.0


From 256624dd1af48bc93901781b0ee542031bf14b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 10/40] fix: GetAttrSingle returns an error when the device
 does

---
 getattr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/getattr.go b/getattr.go
index 7035fc5..8fcd22b 100644
--- a/getattr.go
+++ b/getattr.go
@@ -157,6 +157,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		return nil, fmt.Errorf("couldn't read response header. %w", err)
 	}
+	if resphdr.Status != uint16(CIPStatus_OK) {
+		return &items[1], fmt.Errorf("response header has status 0x%X (%v)", resphdr.Status, CIPStatus(resphdr.Status))
+	}
 	//dat := make([]byte, hdr.Length-26)
 	//items[1].DeSerialize(&dat)
 	return &items[1], nil
-- 
2.43.0


From e168a31fdf93e2b24e1e1a8bbda5ae0f52803f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 11/40] fix: browsing operations return an error when the
 device does

---
 listalltags.go | 3 +++
 listmembers.go | 6 ++++++
 listsubtags.go | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/listalltags.go b/listalltags.go
index 575c8a3..a770a67 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -212,6 +212,9 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	if err != nil {
 		return fmt.Errorf("problem reading list instance header. %w", err)
 	}
+	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return fmt.Errorf("problem listing tags from instance %d. status 0x%X (%v)", start_instance, data_hdr.Status, CIPStatus(data_hdr.Status))
+	}
 
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
diff --git a/listmembers.go b/listmembers.go
index 279de8f..7c318fa 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -128,6 +128,9 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	if err != nil {
 		return result, fmt.Errorf("problem reading result. %w", err)
 	}
+	if result.Status != CIPStatus_OK {
+		return result, fmt.Errorf("template %d attributes returned status %v", str_instance, result.Status)
+	}
 
 	return result, nil
 }
@@ -232,6 +235,9 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read member info header. %w", err)
 	}
+	if mihdr.Status != uint16(CIPStatus_OK) {
+		return UDTDescriptor{}, fmt.Errorf("template %d returned status 0x%X (%v)", str_instance, mihdr.Status, CIPStatus(mihdr.Status))
+	}
 
 	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
 	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
diff --git a/listsubtags.go b/listsubtags.go
index a60d505..1c0c09e 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -85,6 +85,9 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading tag header. %w", err)
 	}
+	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return nil, fmt.Errorf("problem listing tags of %s from instance %d. status 0x%X (%v)", Program.Name, start_instance, data_hdr.Status, CIPStatus(data_hdr.Status))
+	}
 
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
-- 
2.43.0


From 93ed13c6b26a13c103ebe120feb0d7b91826318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 12/40] fix: WriteMap and WriteMulti check the device's reply

---
 udt_write.go | 45 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 593cdb1..6b24879 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -216,9 +216,48 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	if err != nil {
 		return err
 	}
-	_ = hdr
-	_ = data
-	//TODO: do something with the result here!
+	if hdr.Status != 0 {
+		return fmt.Errorf("got non-success status %d when writing", hdr.Status)
+	}
+	write_result_header := msgCIPResultHeader{}
+	err = binary.Read(data, binary.LittleEndian, &write_result_header)
+	if err != nil {
+		return fmt.Errorf("problem reading write result header. %w", err)
+	}
+	items, err := readItems(data)
+	if err != nil {
+		return fmt.Errorf("problem reading items from write, %w", err)
+	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
+	}
+	var reply_hdr msgMultiReadResultHeader
+	err = items[1].DeSerialize(&reply_hdr)
+	if err != nil {
+		return fmt.Errorf("problem reading write response header. %w", err)
+	}
+	if reply_hdr.Status != uint16(CIPStatus_OK) {
+		return fmt.Errorf("write service returned status %v", CIPStatus(reply_hdr.Status))
+	}
+	if int(reply_hdr.Reply_Count) != qty {
+		return fmt.Errorf("wrote %d tags but got %d results", qty, reply_hdr.Reply_Count)
+	}
+	offset_table := make([]uint16, qty)
+	err = items[1].DeSerialize(&offset_table)
+	if err != nil {
+		return fmt.Errorf("problem reading write response offset table. %w", err)
+	}
+	// a successful write has no data so the results follow each other directly.
+	for _, tag := range tags {
+		var result msgUnconnWriteResultHeader
+		err = items[1].DeSerialize(&result)
+		if err != nil {
+			return fmt.Errorf("problem reading write result of %s. %w", tag, err)
+		}
+		if result.Status != CIPStatus_OK {
+			return fmt.Errorf("write of %s returned status %v", tag, result.Status)
+		}
+	}
 
 	return nil
 }
-- 
2.43.0


From 481eed3ec89289b0a975e4693fcdd58dbdd50642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 13/40] fix: browsing tags always continues after the last tag
 received

---
 listalltags.go |  9 +++++++--
 listsubtags.go | 10 +++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/listalltags.go b/listalltags.go
index a770a67..4325a1e 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -216,6 +216,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		return fmt.Errorf("problem listing tags from instance %d. status 0x%X (%v)", start_instance, data_hdr.Status, CIPStatus(data_hdr.Status))
 	}
 
+	last_instance := uint32(0)
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
 	for data2.Len() > 0 {
@@ -224,7 +225,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		if err != nil {
 			return fmt.Errorf("problem reading tag header. %w", err)
 		}
-		start_instance = tag_hdr.InstanceID
+		last_instance = tag_hdr.InstanceID
 
 		tag_name := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &tag_name)
@@ -320,7 +321,11 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	}
 
 	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
-		err = client.ListAllTags(start_instance)
+		next_instance := last_instance + 1
+		if next_instance <= start_instance {
+			return fmt.Errorf("no new tags in partial response from instance %d", start_instance)
+		}
+		err = client.ListAllTags(next_instance)
 		if err != nil {
 			return err
 		}
diff --git a/listsubtags.go b/listsubtags.go
index 1c0c09e..4821490 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -89,6 +89,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		return nil, fmt.Errorf("problem listing tags of %s from instance %d. status 0x%X (%v)", Program.Name, start_instance, data_hdr.Status, CIPStatus(data_hdr.Status))
 	}
 
+	last_instance := uint32(0)
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
 	for data2.Len() > 0 {
@@ -97,6 +98,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		if err != nil {
 			return nil, fmt.Errorf("problem reading tag header. %w", err)
 		}
+		last_instance = tag_hdr.InstanceID
 		newtag_bytes := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &newtag_bytes)
 		if err != nil {
@@ -141,12 +143,14 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		client.KnownTags[strings.ToLower(newtag_name)] = kt
 		new_kts = append(new_kts, kt)
 
-		start_instance = tag_hdr.InstanceID
-
 	}
 
 	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
-		_, err = client.ListSubTags(Program, start_instance)
+		next_instance := last_instance + 1
+		if next_instance <= start_instance {
+			return new_kts, fmt.Errorf("no new tags in partial response from instance %d", start_instance)
+		}
+		_, err = client.ListSubTags(Program, next_instance)
 		if err != nil {
 			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
 		}
-- 
2.43.0


From a4db1fb7acbcce08b094350b18984c1e09a35889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 14/40] fix: a tag that cannot fit in a frame is reported
 instead of split forever

---
 read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/read.go b/read.go
index d81fc46..2771102 100644
--- a/read.go
+++ b/read.go
@@ -828,6 +828,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		// TODO: We also need to calculate the response size we expect from the PLC and split
 		//       into multiple messages on that also.
 		if totalMsgSize > int(client.ConnectionSize) {
+			if i == 0 {
+				return nil, fmt.Errorf("read of %s does not fit in the connection size %d", tags[i].TagName, client.ConnectionSize)
+			}
 			first_part := tags[:i]
 			rest := tags[i:]
 
-- 
2.43.0


From 647290ff109eab6fa2fb04566a3c6672108db14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 15/40] fix: a fragmented read ends when the device sends no
 more data

---
 read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/read.go b/read.go
index 2771102..90e3522 100644
--- a/read.go
+++ b/read.go
@@ -1180,6 +1180,9 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 		if status != byte(CIPStatus_PartialTransfer) {
 			return nil, fmt.Errorf("FragRead at offset %d returned status %v", offset, CIPStatus(status))
 		}
+		if len(fragData) == 0 {
+			return nil, fmt.Errorf("FragRead at offset %d returned no data", offset)
+		}
 	}
 }
 
-- 
2.43.0


From 14c2c098ff5b4101036c76ac9b031631526211bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 16/40] fix: reject a reply that has no data item instead of
 indexing past its items

---
 connect.go     | 3 +++
 getattr.go     | 9 +++++++++
 listalltags.go | 3 +++
 listmembers.go | 6 ++++++
 listsubtags.go | 3 +++
 write.go       | 6 ++++++
 6 files changed, 30 insertions(+)

diff --git a/connect.go b/connect.go
index b9749f7..64c8bf6 100644
--- a/connect.go
+++ b/connect.go
@@ -607,6 +607,9 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items from forward open request. %w", err)
 	}
+	if len(items) < 2 {
+		return nil, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
+	}
 
 	respHeader := msgCIPMessageRouterResponse{}
 	err = items[1].DeSerialize(&respHeader)
diff --git a/getattr.go b/getattr.go
index 8fcd22b..c138f62 100644
--- a/getattr.go
+++ b/getattr.go
@@ -151,6 +151,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
 	}
+	if len(items) < 2 {
+		return nil, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
+	}
 
 	var resphdr cipAttributeResponseHdr
 	err = items[1].DeSerialize(&resphdr)
@@ -299,6 +302,9 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
 	}
+	if len(items) < 2 {
+		return nil, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
+	}
 
 	var respHdr cipAttributeResponseHdr
 	err = items[1].DeSerialize(&respHdr)
@@ -463,6 +469,9 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items: %w", err)
 	}
+	if len(items) < 2 {
+		return nil, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
+	}
 
 	// There is a count before there is any result data - we'll remove that here.
 	// If needed, the item can always be Reset() to get all the data from the start.
diff --git a/listalltags.go b/listalltags.go
index 4325a1e..4f1328c 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -203,6 +203,9 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	if err != nil {
 		return fmt.Errorf("couldn't parse items. %w", err)
 	}
+	if len(resp_items) < 2 {
+		return fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(resp_items))
+	}
 
 	// get ready to read tag info from item 1 data
 	data2 := bytes.NewBuffer(resp_items[1].Data)
diff --git a/listmembers.go b/listmembers.go
index 7c318fa..17a025e 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -119,6 +119,9 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	if err != nil {
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
+	if len(resp_items) < 2 {
+		return msgGetTemplateAttrListResponse{}, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(resp_items))
+	}
 
 	// get ready to read tag info from item 1 data
 	data2 := bytes.NewBuffer(resp_items[1].Data)
@@ -226,6 +229,9 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
+	if len(resp_items) < 2 {
+		return UDTDescriptor{}, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(resp_items))
+	}
 
 	// get ready to read tag info from item 1 data
 	data2 := bytes.NewBuffer(resp_items[1].Data)
diff --git a/listsubtags.go b/listsubtags.go
index 4821490..fa5bb4e 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -76,6 +76,9 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	if err != nil {
 		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
 	}
+	if len(resp_items) < 2 {
+		return new_kts, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(resp_items))
+	}
 
 	// get ready to read tag info from item 1 data
 	data2 := bytes.NewBuffer(resp_items[1].Data)
diff --git a/write.go b/write.go
index 72d2f70..c453752 100644
--- a/write.go
+++ b/write.go
@@ -196,6 +196,9 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
+	if len(items) < 2 {
+		return fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
+	}
 	var hdr2 msgWriteResultHeader
 	err = items[1].DeSerialize(&hdr2)
 	if err != nil {
@@ -285,6 +288,9 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
+	if len(items) < 2 {
+		return fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
+	}
 	var hdr2 msgWriteResultHeader
 	err = items[1].DeSerialize(&hdr2)
 	if err != nil {
-- 
2.43.0


From 4e90a16ad3a17657e2078f946828640171bb3722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 17/40] fix: check the counts, offsets and lengths in read
 replies and arguments before using them

---
 partialread.go |   3 ++
 read.go        | 104 ++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 81 insertions(+), 26 deletions(-)

diff --git a/partialread.go b/partialread.go
index 3d923f7..e84a1e0 100644
--- a/partialread.go
+++ b/partialread.go
@@ -51,6 +51,9 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 	if err != nil {
 		return nil, fmt.Errorf("could not start list read: %w", err)
 	}
+	if len(types) != len(tagnames) || len(elements) != len(tagnames) {
+		return nil, fmt.Errorf("got %d tags with %d types and %d element counts", len(tagnames), len(types), len(elements))
+	}
 	n := 0
 	n_new := 0
 	total := len(tagnames)
diff --git a/read.go b/read.go
index 90e3522..a8d74e3 100644
--- a/read.go
+++ b/read.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -488,6 +489,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(len(items[1].Data)-items[1].Pos) {
+					return nil, fmt.Errorf("string length %d is more than the reply holds", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = items[1].DeSerialize(&str)
 				if err != nil {
@@ -508,6 +512,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(len(str)) {
+					return nil, fmt.Errorf("string length %d is more than a string holds", str_hdr.Length)
+				}
 				response[i] = str[:str_hdr.Length]
 			}
 			return response, nil
@@ -551,7 +558,8 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 
 func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T, error) {
 	t := make([]T, elements)
-	ct, _ := GoVarToCIPType(t[0])
+	var zero T
+	ct, _ := GoVarToCIPType(zero)
 	val, err := client.Read_single(tag, ct, elements)
 	if err != nil {
 		return t, err
@@ -570,6 +578,9 @@ func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T
 	if !ok {
 		return t, fmt.Errorf("couldn't cast array. %w", err)
 	}
+	if len(cast) != len(t) {
+		return t, fmt.Errorf("got %d elements instead of %d", len(cast), len(t))
+	}
 	for i, v := range cast {
 		if ct == CIPTypeSTRING {
 			// v should be a byte slice
@@ -713,25 +724,33 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// build the tag list from the structure by reflecting through the tags on the fields of the struct.
-	T := reflect.TypeOf(tag_str).Elem()
-	vf := reflect.VisibleFields(T)
+	ptr := reflect.ValueOf(tag_str)
+	if ptr.Kind() != reflect.Pointer || ptr.IsNil() || ptr.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("need a map or a pointer to a struct to read into, got %T", tag_str)
+	}
+	val := ptr.Elem()
+	vf := reflect.VisibleFields(val.Type())
 	taglist := make([]tagDesc, 0, len(vf))
-	tags := make([]string, 0)
-	tag_map := make(map[string]int)
-	val := reflect.ValueOf(tag_str).Elem()
+	fields := make([]reflect.Value, 0, len(vf))
 	for i := range vf {
 		field := vf[i]
 		tagPath, ok := field.Tag.Lookup("gologix")
 		if !ok || tagPath == "" {
 			continue
 		}
+		fieldVal, err := val.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("can't read into field %s: %w", field.Name, err)
+		}
+		if !fieldVal.CanSet() {
+			return fmt.Errorf("can't read into field %s", field.Name)
+		}
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		v := val.Field(i).Interface()
+		v := fieldVal.Interface()
 		t, elem := GoVarToCIPType(v)
-		tags = append(tags, tagPath)
-		tag_map[tagPath] = i
+		fields = append(fields, fieldVal)
 		taglist = append(taglist, tagDesc{
 			TagName:  tagPath,
 			TagType:  t,
@@ -746,24 +765,43 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// now unpack the result values back into the given structure
-	for i, tag := range tags {
-		fieldNo := tag_map[tag]
-		val := result_values[i]
-
-		v := reflect.ValueOf(&tag_str).Elem().Elem().Elem()
+	if len(result_values) != len(fields) {
+		return fmt.Errorf("read %d tags but got %d results", len(fields), len(result_values))
+	}
+	for i, fieldVal := range fields {
+		err = setFromResult(fieldVal, result_values[i])
+		if err != nil {
+			return fmt.Errorf("problem storing value of %s: %w", taglist[i].TagName, err)
+		}
+	}
 
-		fieldVal := v.Field(fieldNo)
+	return nil
+}
 
-		if fieldVal.Type().Kind() != reflect.Slice {
-			fieldVal.Set(reflect.ValueOf(val))
-		} else {
-			l := fieldVal.Len()
-			for j := 0; j < l; j++ {
-				fieldVal.Index(j).Set(reflect.ValueOf(val).Index(j).Elem())
-			}
+// setFromResult stores a value that was read from the controller in a variable.
+// The elements of a slice are stored in the (already allocated) elements of the variable.
+func setFromResult(dest reflect.Value, result any) error {
+	results := []any{result}
+	dests := []reflect.Value{dest}
+	if dest.Kind() == reflect.Slice {
+		if multi, ok := result.([]any); ok {
+			results = multi
+		}
+		dests = make([]reflect.Value, dest.Len())
+		for i := range dests {
+			dests[i] = dest.Index(i)
 		}
 	}
-
+	if len(results) != len(dests) {
+		return fmt.Errorf("got %d elements instead of %d", len(results), len(dests))
+	}
+	for i := range dests {
+		v := reflect.ValueOf(results[i])
+		if !v.IsValid() || !v.Type().AssignableTo(dests[i].Type()) {
+			return fmt.Errorf("can't store a %T in a %v", results[i], dests[i].Type())
+		}
+		dests[i].Set(v)
+	}
 	return nil
 }
 
@@ -780,6 +818,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	qty := len(tags)
 	iois := make([]*tagIOI, qty)
 	for i, tag := range tags {
+		if tag.Elements < 0 || tag.Elements > math.MaxUint16 {
+			return nil, fmt.Errorf("can't read %d elements of %s", tag.Elements, tag.TagName)
+		}
 		var err error
 		iois[i], err = client.newIOI(tag.TagName, tag.TagType)
 		if err != nil {
@@ -911,6 +952,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	if err != nil {
 		return nil, fmt.Errorf("problem reading reply header item count. %w", err)
 	}
+	if int(reply_hdr.Reply_Count) != qty {
+		return nil, fmt.Errorf("read %d tags but got %d results", qty, reply_hdr.Reply_Count)
+	}
 
 	offset_table := make([]uint16, reply_hdr.Reply_Count)
 	err = binary.Read(&rItem, binary.LittleEndian, &offset_table)
@@ -923,7 +967,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 	result_values := make([]interface{}, reply_hdr.Reply_Count)
 	for i := 0; i < int(reply_hdr.Reply_Count); i++ {
-		offset := offset_table[i] + 10 // offset doesn't start at 0 in the item
+		offset := int(offset_table[i]) + 10 // offset doesn't start at 0 in the item
+		if offset > len(rb) {
+			return nil, fmt.Errorf("result %d starts at %d, past the end of the reply", i, offset)
+		}
 		myBytes := bytes.NewBuffer(rb[offset:])
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
@@ -948,8 +995,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				}
 				val, err := getBit(rHdr.Type, value, iois[i].BitPosition)
 				if err != nil {
-					client.Logger.Warn("problem reading value for this guy")
-					continue
+					return nil, fmt.Errorf("problem reading bit of tag %v: %w", tags[i], err)
 				}
 				result_values[i] = val
 			} else if tags[i].TagType == CIPTypeSTRING {
@@ -958,6 +1004,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string struct header. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(myBytes.Len()) {
+					return nil, fmt.Errorf("string length %d is more than the reply holds", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = binary.Read(myBytes, binary.LittleEndian, str)
 				if err != nil {
@@ -1009,6 +1058,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string data for tag %v element %d: %w", tags[i], respIndex, err)
 				}
+				if int64(str_hdr.Length) > int64(len(str)) {
+					return nil, fmt.Errorf("string length %d of tag %v element %d is more than a string holds", str_hdr.Length, tags[i], respIndex)
+				}
 				val[respIndex] = string(str[:str_hdr.Length])
 			}
 			result_values[i] = val
-- 
2.43.0


From 1ecfe532f5703d650acab4910ae6e153d642f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 18/40] fix: a route that starts with an address is an error
 instead of a panic

---
 path.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/path.go b/path.go
index 5a5871a..1d72e1b 100644
--- a/path.go
+++ b/path.go
@@ -78,6 +78,12 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			// for some god forsaken reason the path doesn't use the ip address as actual bytes but as an ascii string.
 			// we first have to set bit 5 in the previous byte to say we're using an extended address for this part.
 			last_pos := len(byte_path) - 1
+			if last_pos < 0 {
+				return nil, fmt.Errorf("address %v must follow a port number", part)
+			}
+			if len(part) > 255 {
+				return nil, fmt.Errorf("address of %d characters is too long", len(part))
+			}
 			last_byte := byte_path[last_pos]
 			byte_path[last_pos] = last_byte | 1<<4
 			l := len(part)
-- 
2.43.0


From e536d8bf070742bf6e829fc6cd81f8bd31969a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 19/40] fix: malformed tag names and paths are rejected

---
 ioi.go | 49 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/ioi.go b/ioi.go
index f3a24a1..8d28fce 100644
--- a/ioi.go
+++ b/ioi.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -51,7 +52,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 			parts := strings.Split(arr_access_text, ",")
 			tag.Array_Order = make([]int, len(parts))
 			for i, part := range parts {
-				tag.Array_Order[i], err = strconv.Atoi(part)
+				tag.Array_Order[i], err = strconv.Atoi(strings.TrimSpace(part))
 				if err != nil {
 					return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 				}
@@ -59,7 +60,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 
 		} else {
 			tag.Array_Order = make([]int, 1)
-			tag.Array_Order[0], err = strconv.Atoi(arr_access_text)
+			tag.Array_Order[0], err = strconv.Atoi(strings.TrimSpace(arr_access_text))
 			if err != nil {
 				return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 			}
@@ -149,10 +150,13 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	// we'll build this byte structure up as we go.
 	ioi.Buffer = make([]byte, 0, defaultIOIBufferSize)
 
-	for _, tag_part := range tag_array {
+	for i, tag_part := range tag_array {
 		if strings.HasSuffix(tag_part, "]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
+			if start_index <= 0 || start_index != strings.LastIndex(tag_part, "[") {
+				return nil, fmt.Errorf("malformed array index in %s", tagpath)
+			}
 			ioi_part, err := marshalIOIPart(tag_part[0:start_index])
 			if err != nil {
 				return nil, err
@@ -165,7 +169,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 			t, err := parse_tag_name(tag_part)
 			if err != nil {
-				client.Logger.Warn("problem parsing path", "error", err)
+				return nil, fmt.Errorf("problem parsing %s: %w", tagpath, err)
+			}
+			if len(t.Array_Order) == 0 {
+				return nil, fmt.Errorf("malformed array index in %s", tagpath)
 			}
 
 			for _, order_size := range t.Array_Order {
@@ -183,6 +190,8 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 					if err != nil {
 						return nil, fmt.Errorf("problem reading index part. %w", err)
 					}
+				} else if int64(order_size) > math.MaxUint32 {
+					return nil, fmt.Errorf("array index %d is too big in %s", order_size, tagpath)
 				} else {
 					// uint16, uint32
 					index_part0 := []uint16{uint16(cipElement_32bit)}
@@ -201,7 +210,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		} else {
 			// not part of an array
 			bit_access, err := strconv.Atoi(tag_part)
-			if err == nil && bit_access <= 31 {
+			if err == nil {
+				if bit_access < 0 || bit_access > 63 || i == 0 || i != len(tag_array)-1 {
+					return nil, fmt.Errorf("malformed bit number in %s", tagpath)
+				}
 				// This is a bit access.
 				// we won't do anything for now and will just parse the
 				// bit out of the word when that time comes.
@@ -209,6 +221,9 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 				ioi.BitPosition = bit_access
 				continue
 			}
+			if tag_part == "" || strings.ContainsAny(tag_part, "[]") {
+				return nil, fmt.Errorf("malformed name in %s", tagpath)
+			}
 			ioi_part, err := marshalIOIPart(tag_part)
 			if err != nil {
 				return nil, err
@@ -232,6 +247,9 @@ func marshalIOIPart(tagpath string) ([]byte, error) {
 		return nil, fmt.Errorf("could not parse tag path: %w", err)
 	}
 	tag_size := len(t.BasePath)
+	if tag_size > math.MaxUint8 {
+		return nil, fmt.Errorf("name of %d characters is too long", tag_size)
+	}
 	need_extend := false
 	if tag_size%2 == 1 {
 		need_extend = true
@@ -294,7 +312,7 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
+			if strings.HasSuffix(tag_str, "]") {
 				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
 			} else {
 				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
@@ -311,7 +329,24 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
+			if strings.HasSuffix(tag_str, "]") {
+				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
+			} else {
+				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			}
+		case 0x2A:
+			// four byte index
+			var pad byte
+			err = item.DeSerialize(&pad)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get padding: %w", err)
+			}
+			var array_index uint32
+			err = item.DeSerialize(&array_index)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get array index: %w", err)
+			}
+			if strings.HasSuffix(tag_str, "]") {
 				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
 			} else {
 				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
-- 
2.43.0


From a3650cd31613458bd8ff57cd67e18e68ea2434ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 20/40] fix: sizes, counts and offsets in requests can no
 longer crash the server

---
 server.go             | 17 ++++++++++++++---
 server_connected.go   | 27 ++++++++++++++++++++++-----
 server_router.go      |  3 +++
 server_unconnected.go |  9 ++++++---
 4 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/server.go b/server.go
index 43cd03e..38f2916 100644
--- a/server.go
+++ b/server.go
@@ -556,7 +556,7 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
 	}
 
-	path := make([]byte, fwd_close.PathSize*2)
+	path := make([]byte, int(fwd_close.PathSize)*2)
 	err = i.DeSerialize(&path)
 	if err != nil {
 		return fmt.Errorf("problem parsing forward close path %w", err)
@@ -623,12 +623,15 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
 	}
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
+	if len(fwd_path) < 2 {
+		return fmt.Errorf("forward open path is %d bytes long", len(fwd_path))
+	}
 	path := fwd_path[:2]
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
@@ -708,7 +711,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
@@ -723,6 +726,9 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	// then a "simple data segment" of some mystery data.
 
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
+	if len(fwd_path) < 2 {
+		return fmt.Errorf("forward open path is %d bytes long", len(fwd_path))
+	}
 	path := fwd_path[:2]
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
@@ -797,7 +803,12 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp CIPEndpoint, conn *serverConnection) {
 	rpi := time.Duration(fwd_open.TORPI) * time.Microsecond
 	h.server.Logger.Info("IO Connection", "rpi", rpi)
+	if rpi <= 0 {
+		h.server.Logger.Error("IO Connection needs a packet interval", "rpi", rpi)
+		return
+	}
 	t := time.NewTicker(rpi)
+	defer t.Stop()
 	seq := uint32(0)
 
 	// get the address to send the response back to, trim off the port number, and add the eip udp port number (2222) back on.
diff --git a/server_connected.go b/server_connected.go
index 4e500c9..4d2ec6f 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 )
 
 func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
@@ -23,6 +24,9 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
+	if len(results) == 0 {
+		return fmt.Errorf("no values to write for tag %s", tag)
+	}
 	qty := uint16(len(results))
 	h.server.Logger.Debug("write", "tag", tag, "value", results)
 
@@ -102,26 +106,31 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 	}
 
 	// need to handle this differently!
-	pb := make([]byte, pathlen*2)
+	pb := make([]byte, int(pathlen)*2)
 	err = item.DeSerialize(&pb)
 	if err != nil {
 		return fmt.Errorf("problem dumping path bytes from multi-svc header")
 	}
+	payloadStart := item.Pos // the offsets are relative to the service count
 	qty, err := item.Uint16()
 	if err != nil {
 		return fmt.Errorf("problem getting multisvc item count: %w", err)
 	}
-	offsets := make([]int16, qty)
+	offsets := make([]uint16, qty)
 	results := make([][]byte, qty)
 	for i := range offsets {
-		offsets[i], err = item.Int16()
+		offsets[i], err = item.Uint16()
 		if err != nil {
 			return fmt.Errorf("problem getting multisvc offset for item %d: %w", i, err)
 		}
 	}
 
 	for i := range results {
-		item.Pos = int(offsets[i]) + 8 // seek to the start of the multi-service payload data.
+		pos := payloadStart + int(offsets[i])
+		if pos > len(item.Data) {
+			return fmt.Errorf("multisvc offset for item %d is past the end of the request", i)
+		}
+		item.Pos = pos // seek to the start of the multi-service payload data.
 		var svc CIPService
 		err = item.DeSerialize(&svc)
 		if err != nil {
@@ -209,6 +218,9 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 				return fmt.Errorf("problem deserializing element count %w", err)
 			}
 
+			if qty == 0 {
+				return fmt.Errorf("no values to write for tag %s", tag)
+			}
 			writeTags := make([]any, qty)
 			for i := 0; i < int(qty); i++ {
 				writeTags[i], err = typ.readValue(&item)
@@ -232,16 +244,21 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 
 			results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
 
+		default:
+			results[i] = []byte{byte(svc.AsResponse()), 0x00, byte(CIPStatus_ServiceNotSupported), 0x00}
 		}
 
 	}
 
-	response := make([]any, qty+2)
+	response := make([]any, len(results)+2)
 	response[0] = qty
 
 	pos := (int(qty) + 1) * 2
 	jump_table := make([]uint16, qty)
 	for i := range jump_table {
+		if pos > math.MaxUint16 {
+			return fmt.Errorf("the results of %d services do not fit in a reply", qty)
+		}
 		jump_table[i] = uint16(pos)
 		pos += len(results[i])
 	}
diff --git a/server_router.go b/server_router.go
index 1a9b5ae..af11d0b 100644
--- a/server_router.go
+++ b/server_router.go
@@ -95,6 +95,9 @@ func (p *MapTagProvider) IOWrite(items []CIPItem) error {
 // `realarr[2]` we look up `realarr` here and return the third
 // element rather than failing with "tag not in map".
 func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
+	if qty < 0 {
+		return nil, fmt.Errorf("tag %v: can't read %d elements", tag, qty)
+	}
 	tag = strings.ToLower(tag)
 	p.Mutex.Lock()
 	defer p.Mutex.Unlock()
diff --git a/server_unconnected.go b/server_unconnected.go
index 2e674fa..e87b55c 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -71,7 +71,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting path size 305. %w", err)
 		}
-		path := make([]byte, pathsize*2)
+		path := make([]byte, int(pathsize)*2)
 		err = item.DeSerialize(&path)
 		if err != nil {
 			return fmt.Errorf("error getting path. %w", err)
@@ -347,13 +347,16 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
+	if len(results) == 0 {
+		return fmt.Errorf("no values to write for tag %s", tag)
+	}
 	qty := uint16(len(results))
 	var path_size uint16
 	err = item.DeSerialize(&path_size)
 	if err != nil {
 		return fmt.Errorf("couldn't get path size 374. %w", err)
 	}
-	path := make([]byte, 2*path_size)
+	path := make([]byte, 2*int(path_size))
 	err = item.DeSerialize(&path)
 	if err != nil {
 		return fmt.Errorf("couldn't get path. %w", err)
@@ -594,7 +597,7 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("couldn't get path size 374. %w", err)
 	}
-	path := make([]byte, 2*path_size)
+	path := make([]byte, 2*int(path_size))
 	err = item.DeSerialize(&path)
 	if err != nil {
 		return fmt.Errorf("couldn't get path. %w", err)
-- 
2.43.0


From eda989f024c95cc08ea772c80fa8042180898198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 21/40] fix: the server reads whole frames, answers or ends
 every request and releases connections with their session

---
 server.go             | 214 +++++++++++++++++++++++++-----------------
 server_connected.go   |   2 +-
 server_connections.go |  58 +++++++++++-
 3 files changed, 188 insertions(+), 86 deletions(-)

diff --git a/server.go b/server.go
index 38f2916..f1e46f2 100644
--- a/server.go
+++ b/server.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"log/slog"
+	"math"
 	"math/rand"
 	"net"
 	"strings"
@@ -204,6 +206,7 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 	// if this function ends, close and remove ourselves from the server's open connection list.
 	defer func() {
 		h.conn.Close()
+		srv.ConnMgr.closeOwnedBy(h)
 	}()
 
 	for {
@@ -212,23 +215,30 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 		if err != nil {
 			return fmt.Errorf("problem reading eip header. %w", err)
 		}
+		// take the whole message, so whatever a handler leaves isn't mistaken for the next one.
+		body := make([]byte, eipHdr.Length)
+		_, err = io.ReadFull(h.conn, body)
+		if err != nil {
+			return fmt.Errorf("problem reading eip message. %w", err)
+		}
+		data := bytes.NewReader(body)
 		h.context = eipHdr.Context
 		h.server.Logger.Debug("New Context", "context", h.context)
 		switch eipHdr.Command {
 		case cipCommandRegisterSession:
-			err = h.registerSession(eipHdr)
+			err = h.registerSession(eipHdr, data)
 			if err != nil {
 				return fmt.Errorf("problem with register session %w", err)
 			}
 		case cipCommandSendRRData:
 			// this is things like forward opens
-			err = h.sendRRData(eipHdr)
+			err = h.sendRRData(eipHdr, data)
 			if err != nil {
 				return fmt.Errorf("problem with sendRRData %w", err)
 			}
 		case cipCommandSendUnitData:
 			// this is things like writes and reads
-			err = h.sendUnitData(eipHdr)
+			err = h.sendUnitData(eipHdr, data)
 			if err != nil {
 				return fmt.Errorf("problem with sendUnitData %w", err)
 			}
@@ -242,24 +252,34 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 			if err != nil {
 				return fmt.Errorf("problem with sendListIdentity %w", err)
 			}
-
+		case cipCommandUnRegisterSession:
+			// there is no reply to this, it just ends the session.
+			return nil
+		case cipCommand_NOP:
+			// there is no reply to this.
+		default:
+			h.server.Logger.Warn("unsupported command", "command", eipHdr.Command)
+			err = h.sendStatus(eipHdr.Command, eipStatusInvalidCommand)
+			if err != nil {
+				return fmt.Errorf("problem rejecting command %v %w", eipHdr.Command, err)
+			}
 		}
 	}
 
 }
 
-func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
+func (h *serverTCPHandler) sendUnitData(hdr eipHeader, data io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(data, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(data, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -275,6 +295,12 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing connection ID %w", err)
 	}
+	conn, err := h.server.ConnMgr.GetByOT(connId)
+	if err != nil {
+		return fmt.Errorf("message for a connection that is not open. %w", err)
+	}
+	h.OTConnectionID = conn.OT
+	h.TOConnectionID = conn.TO
 
 	err = items[1].DeSerialize(&h.UnitDataSequencer)
 	if err != nil {
@@ -511,36 +537,28 @@ func (h *serverTCPHandler) sendUnitDataReply(s CIPService) error {
 	return h.send(cipCommandSendUnitData, itemData)
 }
 
-func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
+func (h *serverTCPHandler) sendRRData(hdr eipHeader, data io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(data, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(data, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
 	if len(items) != 2 {
 		return fmt.Errorf("expected 2 items. got %v", len(items))
 	}
-	switch items[1].Header.ID {
-	case cipItem_ConnectedData:
-		var service CIPService
-		err = items[1].DeSerialize(&service)
-		if err != nil {
-			return fmt.Errorf("failed to get service. %w", err)
-		}
-		return h.connectedRead(service, items)
-	case cipItem_UnconnectedData:
-		return h.unconnectedData(items[1])
+	if items[1].Header.ID != cipItem_UnconnectedData {
+		return fmt.Errorf("expected an unconnected data item in position 1. got %v", items[1].Header.ID)
 	}
-	return nil
+	return h.unconnectedData(items[1])
 }
 
 func (h *serverTCPHandler) forwardClose(i CIPItem) error {
@@ -551,17 +569,22 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 		return fmt.Errorf("problem parsing forward close %w", err)
 	}
 	h.server.Logger.Info("Closing connection", "serial", fwd_close.ConnectionSerialNumber)
-	err = h.server.ConnMgr.CloseByID(fwd_close.ConnectionSerialNumber)
-	if err != nil {
-		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
-	}
-
-	path := make([]byte, int(fwd_close.PathSize)*2)
+	path := make([]byte, int(fwd_close.ConnPathSize)*2)
 	err = i.DeSerialize(&path)
 	if err != nil {
 		return fmt.Errorf("problem parsing forward close path %w", err)
 	}
-	return nil
+	err = h.server.ConnMgr.Close(fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber)
+	if err != nil {
+		h.server.Logger.Warn("couldn't close connection", "serial", fwd_close.ConnectionSerialNumber, "error", err)
+		return h.sendUnconnectedErrorReply(fwd_close.Service, CIPStatus_ConnectionFailure)
+	}
+	return h.sendUnconnectedRRDataReply(fwd_close.Service,
+		fwd_close.ConnectionSerialNumber,
+		fwd_close.VendorID,
+		fwd_close.OriginatorSerialNumber,
+		[2]byte{}, // no application reply
+	)
 }
 
 // in this message T is for target and O is for originator so
@@ -630,7 +653,8 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	}
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
 	if len(fwd_path) < 2 {
-		return fmt.Errorf("forward open path is %d bytes long", len(fwd_path))
+		h.server.Logger.Warn("forward open path is too short", "path", fwd_path)
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathSegmentError)
 	}
 	path := fwd_path[:2]
 
@@ -640,17 +664,25 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	items[1] = newItem(cipItem_UnconnectedData, nil)
 
 	if fwd_open.TOConnectionID == 0 {
-		h.TOConnectionID = rand.Uint32()
-	} else {
-		h.TOConnectionID = fwd_open.TOConnectionID
+		fwd_open.TOConnectionID = rand.Uint32()
 	}
-	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+	cipConnection := &serverConnection{
+		TO:   fwd_open.TOConnectionID,
+		OT:   fwd_open.OTConnectionID,
+		ID:   fwd_open.ConnectionSerialNumber,
+		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path: path,
+		Open: true,
+
+		VendorID:               fwd_open.VendorID,
+		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
+		owner:                  h,
 	}
-	fwd_open.OTConnectionID = h.OTConnectionID
+	// the connection is released with the session if anything fails from here on.
+	h.server.ConnMgr.Add(cipConnection)
+	fwd_open.OTConnectionID = cipConnection.OT
+	h.TOConnectionID = fwd_open.TOConnectionID
+	h.OTConnectionID = fwd_open.OTConnectionID
 	// Echo the requested RPI back as the Actual Packet Interval (API). CIP
 	// spec ODVA Vol 1 §3-5.6 allows the target to commit to a different API
 	// than what was requested, but it MUST report a non-zero value the
@@ -686,17 +718,6 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
 		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
 	}
@@ -727,9 +748,23 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
 	if len(fwd_path) < 2 {
-		return fmt.Errorf("forward open path is %d bytes long", len(fwd_path))
+		h.server.Logger.Warn("forward open path is too short", "path", fwd_path)
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathSegmentError)
 	}
 	path := fwd_path[:2]
+	var tp CIPEndpoint
+	if fwd_open.TransportTrigger == 1 {
+		// this is a cyclic IO connection
+		if fwd_open.TORPI == 0 {
+			h.server.Logger.Warn("IO connection without a packet interval")
+			return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_InvalidParameterValue)
+		}
+		tp, err = h.server.Router.Resolve(path)
+		if err != nil {
+			h.server.Logger.Warn("no tag provider for IO connection", "path", path)
+			return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathDestinationUnknown)
+		}
+	}
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
@@ -737,17 +772,25 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	items[1] = newItem(cipItem_UnconnectedData, nil)
 
 	if fwd_open.TOConnectionID == 0 {
-		h.TOConnectionID = rand.Uint32()
-	} else {
-		h.TOConnectionID = fwd_open.TOConnectionID
+		fwd_open.TOConnectionID = rand.Uint32()
 	}
-	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+	cipConnection := &serverConnection{
+		TO:   fwd_open.TOConnectionID,
+		OT:   fwd_open.OTConnectionID,
+		ID:   fwd_open.ConnectionSerialNumber,
+		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path: path,
+		Open: true,
+
+		VendorID:               fwd_open.VendorID,
+		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
+		owner:                  h,
 	}
-	fwd_open.OTConnectionID = h.OTConnectionID
+	// the connection is released with the session if anything fails from here on.
+	h.server.ConnMgr.Add(cipConnection)
+	fwd_open.OTConnectionID = cipConnection.OT
+	h.TOConnectionID = fwd_open.TOConnectionID
+	h.OTConnectionID = fwd_open.OTConnectionID
 	// See largeForwardOpen above for why API must echo the requested RPI
 	// instead of zero. Same fix applies to the standard (small) Forward
 	// Open path because real Logix MSG instructions hit this code path for
@@ -777,23 +820,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
-		// this is a cyclic IO connection
-		tp, err := h.server.Router.Resolve(path)
-		if err != nil {
-			return fmt.Errorf("no tag provider for path %v", path)
-		}
 		go h.ioConnection(fwd_open, tp, cipConnection)
 	}
 
@@ -827,8 +854,8 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	for {
 		seq++
 		<-t.C
-		if !conn.Open {
-			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
+		if !h.server.ConnMgr.IsOpen(conn) {
+			h.server.Logger.Warn("connection closed. no longer sending IO messages", "id", conn.ID)
 			return
 
 		}
@@ -870,10 +897,10 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	}
 }
 
-func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
+func (h *serverTCPHandler) registerSession(hdr eipHeader, data io.Reader) error {
 
 	reg_msg := msgCIPRegister{}
-	err := binary.Read(h.conn, binary.LittleEndian, &reg_msg)
+	err := binary.Read(data, binary.LittleEndian, &reg_msg)
 	if err != nil {
 		return fmt.Errorf("problem reading register session message. %w", err)
 	}
@@ -897,13 +924,26 @@ func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
 //
 // It builds the appropriate header for all the data, puts the packet together, and then sends it.
 func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
+	return h.sendStatus(cmd, eipStatusOK, msgs...)
+}
+
+// sendStatus is send with an encapsulation status other than success.
+func (h *serverTCPHandler) sendStatus(cmd CIPCommand, status uint32, msgs ...any) error {
 	// calculate size of all message parts
 	size := 0
 	for _, msg := range msgs {
-		size += binary.Size(msg)
+		msgSize := binary.Size(msg)
+		if msgSize < 0 {
+			return fmt.Errorf("can't send a %T", msg)
+		}
+		size += msgSize
+	}
+	if size > math.MaxUint16 {
+		return fmt.Errorf("message of %d bytes does not fit in a frame", size)
 	}
 	// build header based on size
 	hdr := h.newEIPHeader(cmd, size)
+	hdr.Status = status
 
 	// initialize a buffer and add the header to it.
 	// the 24 is from the header size
@@ -950,6 +990,12 @@ func (h *serverTCPHandler) newEIPHeader(cmd CIPCommand, size int) (hdr eipHeader
 
 }
 
+// encapsulation status codes
+const (
+	eipStatusOK             uint32 = 0
+	eipStatusInvalidCommand uint32 = 1
+)
+
 type ServiceCapabilityFlags uint16
 
 const (
@@ -971,10 +1017,10 @@ func (h *serverTCPHandler) sendListServicesData(hdr eipHeader) error {
 	response := listServicesReply{
 		Count:    1,
 		TypeCode: 0x0100,
-		Length:   10,
+		Length:   20, // version, capabilities and name
 		Version:  1,
 		CapFlags: ServiceCapabilityFlag_CipEncapsulation | ServiceCapabilityFlag_SupportsClass1UDP,
 		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's', ' ', ' '},
 	}
-	return h.send(cipCommandSendRRData, response)
+	return h.send(cipCommandListServices, response)
 }
diff --git a/server_connected.go b/server_connected.go
index 4d2ec6f..4107aa4 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -601,6 +601,6 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 		return fmt.Errorf("bad attribute %d", attr)
 	}
 
-	return h.sendConnectedReply(CIPService_FragRead, seq, connection.TO, result)
+	return h.sendConnectedReply(CIPService_GetAttributeSingle, seq, connection.TO, result)
 
 }
diff --git a/server_connections.go b/server_connections.go
index 37cf22f..1cd4ad5 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"fmt"
 	"log/slog"
+	"math/rand"
 	"sync"
 	"time"
 )
@@ -14,6 +15,10 @@ type serverConnection struct {
 	RPI  time.Duration
 	Path []byte
 	Open bool
+
+	VendorID               uint16
+	OriginatorSerialNumber uint32
+	owner                  *serverTCPHandler // the session that opened the connection.
 }
 
 type serverConnectionManager struct {
@@ -26,12 +31,63 @@ func (cm *serverConnectionManager) Init(logger *slog.Logger) {
 	cm.Connections = make([]*serverConnection, 0, 32)
 	cm.Logger = logger
 }
+// Add puts an open connection in the table. If the originator didn't choose an OT connection ID,
+// or chose one that is already in use, the connection is given another one.
 func (cm *serverConnectionManager) Add(conn *serverConnection) {
-	cm.Logger.Info("New Managed Connection.", "conn", *conn)
 	cm.Lock.Lock()
 	defer cm.Lock.Unlock()
+	for conn.OT == 0 || cm.hasOT(conn.OT) {
+		conn.OT = rand.Uint32()
+	}
+	cm.Logger.Info("New Managed Connection.", "conn", *conn)
 	cm.Connections = append(cm.Connections, conn)
 }
+
+// call with the lock held.
+func (cm *serverConnectionManager) hasOT(OT uint32) bool {
+	for _, conn := range cm.Connections {
+		if conn.OT == OT {
+			return true
+		}
+	}
+	return false
+}
+
+// IsOpen tells whether the connection has not been closed yet.
+func (cm *serverConnectionManager) IsOpen(conn *serverConnection) bool {
+	cm.Lock.RLock()
+	defer cm.Lock.RUnlock()
+	return conn.Open
+}
+
+// Close closes the connection a forward close identifies.
+func (cm *serverConnectionManager) Close(ID uint16, vendorID uint16, originatorSerialNumber uint32) error {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	for i, conn := range cm.Connections {
+		if conn.ID == ID && conn.VendorID == vendorID && conn.OriginatorSerialNumber == originatorSerialNumber {
+			conn.Open = false
+			cm.Connections = append(cm.Connections[:i], cm.Connections[i+1:]...)
+			return nil
+		}
+	}
+	return fmt.Errorf("couldn't find connection %v of originator %v:%v", ID, vendorID, originatorSerialNumber)
+}
+
+// closeOwnedBy closes every connection a session opened.
+func (cm *serverConnectionManager) closeOwnedBy(owner *serverTCPHandler) {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	kept := make([]*serverConnection, 0, len(cm.Connections))
+	for _, conn := range cm.Connections {
+		if conn.owner == owner {
+			conn.Open = false
+			continue
+		}
+		kept = append(kept, conn)
+	}
+	cm.Connections = kept
+}
 func (cm *serverConnectionManager) GetByID(ID uint16) (*serverConnection, error) {
 	cm.Lock.RLock()
 	defer cm.Lock.RUnlock()
-- 
2.43.0


From 5a17c1e36020c8283eac9c609f9fa367c7fba9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 22/40] fix: the server stops when its listeners fail instead
 of spinning

---
 server.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/server.go b/server.go
index f1e46f2..d901afe 100644
--- a/server.go
+++ b/server.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"log/slog"
@@ -75,12 +76,13 @@ func (srv *Server) Serve() error {
 	srv.UDPListener, err = net.ListenPacket("udp", "0.0.0.0:2222")
 	srv.Logger.Info("Listening on UDP port 2222")
 	if err != nil {
-		return fmt.Errorf("couldn't open udp listener. %v", err)
+		srv.TCPListener.Close()
+		return fmt.Errorf("couldn't open udp listener. %w", err)
 	}
 
 	// we'll start two server goroutines and then wait for either of them to error out on the error channel.
 
-	errCh := make(chan error)
+	errCh := make(chan error, 2)
 
 	go func() {
 		err := srv.serveUDP()
@@ -119,7 +121,11 @@ func (srv *Server) serveTCP() error {
 	for {
 		conn, err := srv.TCPListener.Accept()
 		if err != nil {
+			if !isTemporary(err) {
+				return fmt.Errorf("problem with tcp accept: %w", err)
+			}
 			srv.Logger.Error("problem with tcp accept", "error", err)
+			time.Sleep(listenerRetryDelay)
 			continue
 		}
 		// create a new handler and kick off its serve method to handle the connection
@@ -133,6 +139,15 @@ func (srv *Server) serveTCP() error {
 	}
 }
 
+// how long to wait before using a listener again after a temporary failure.
+const listenerRetryDelay = 10 * time.Millisecond
+
+// isTemporary tells whether a listener can still be used after it returned err.
+func isTemporary(err error) bool {
+	var temporary interface{ Temporary() bool }
+	return errors.As(err, &temporary) && temporary.Temporary()
+}
+
 type cipIOSeqAccessData struct {
 	ConnectionID  uint32
 	SequenceCount uint32
@@ -144,9 +159,16 @@ type cipIOSeqAccessData struct {
 func (srv *Server) serveUDP() error {
 	bufSize := 4096
 	for {
-		b := make([]byte, 4096)
-		buf := bytes.NewBuffer(b)
+		b := make([]byte, bufSize)
 		n, addr, err := srv.UDPListener.ReadFrom(b)
+		if err != nil {
+			if !isTemporary(err) {
+				return fmt.Errorf("problem with udp read: %w", err)
+			}
+			srv.Logger.Debug("problem with udp accept", "error", err)
+			time.Sleep(listenerRetryDelay)
+			continue
+		}
 		if n == 0 {
 			srv.Logger.Debug("Read 0 bytes on udp listener.")
 			continue
@@ -155,10 +177,7 @@ func (srv *Server) serveUDP() error {
 			srv.Logger.Debug("udp buffer size not big enough!")
 			continue
 		}
-		if err != nil {
-			srv.Logger.Debug("problem with udp accept", "error", err)
-			continue
-		}
+		buf := bytes.NewBuffer(b[:n])
 		_ = addr // don't need this yet.
 		// we've read a packet on udp so we need to parse the eip data
 
-- 
2.43.0


From cd6e59b4ca4dd5f9edfbbd733c0387d1eb730df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 23/40] fix: providers and the router don't share unlocked
 state between sessions

---
 server_iochannel.go |  5 +++++
 server_router.go    | 18 ++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/server_iochannel.go b/server_iochannel.go
index 2c2d9ff..a448269 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -20,6 +20,7 @@ import (
 type IOChannelProvider[Tin, Tout any] struct {
 	inMutex     sync.Mutex
 	in          Tin
+	outMutex    sync.Mutex
 	outChannels []chan Tout
 }
 
@@ -70,6 +71,8 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	for i := range p.outChannels {
 		select {
 		case p.outChannels[i] <- out:
@@ -92,6 +95,8 @@ func (p *IOChannelProvider[Tin, Tout]) TagWrite(tag string, value any) error {
 // returns the most udpated copy of the output data
 // this output data is what the PLC is writing to us
 func (p *IOChannelProvider[Tin, Tout]) GetOutputDataChannel() <-chan Tout {
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	newout := make(chan Tout)
 	p.outChannels = append(p.outChannels, newout)
 	return newout
diff --git a/server_router.go b/server_router.go
index af11d0b..7659d14 100644
--- a/server_router.go
+++ b/server_router.go
@@ -15,6 +15,7 @@ import (
 // instead of a handler function you use an object that provides the TagProvider interface.
 type PathRouter struct {
 	Path map[string]CIPEndpoint
+	lock sync.RWMutex
 }
 
 func NewRouter() *PathRouter {
@@ -24,6 +25,8 @@ func NewRouter() *PathRouter {
 }
 
 func (router *PathRouter) Handle(path []byte, p CIPEndpoint) {
+	router.lock.Lock()
+	defer router.lock.Unlock()
 	if router.Path == nil {
 		router.Path = make(map[string]CIPEndpoint)
 	}
@@ -32,6 +35,8 @@ func (router *PathRouter) Handle(path []byte, p CIPEndpoint) {
 
 // find the tag provider for a given cip path
 func (router *PathRouter) Resolve(path []byte) (CIPEndpoint, error) {
+	router.lock.RLock()
+	defer router.lock.RUnlock()
 	tp, ok := router.Path[string(path)]
 	if !ok {
 		return nil, fmt.Errorf("path %v not recognized", path)
@@ -130,14 +135,12 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		if qty == 1 {
 			return t.Index(elemIdx).Interface(), nil
 		}
-		return t.Slice(elemIdx, end).Interface(), nil
+		return copySlice(t.Slice(elemIdx, end)), nil
 	}
 
 	if t.Kind() == reflect.Slice {
 		if int(qty) <= t.Len() {
-			values := reflect.Indirect(t)
-			v := values.Slice(0, int(qty))
-			return v.Interface(), nil
+			return copySlice(t.Slice(0, int(qty))), nil
 		}
 		return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())
 	}
@@ -145,6 +148,13 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 	return val, nil
 }
 
+// copySlice returns a copy of a slice that doesn't change when the tag is written.
+func copySlice(v reflect.Value) any {
+	c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+	reflect.Copy(c, v)
+	return c.Interface()
+}
+
 // this is a thread-safe way to write a value to a tag. Like TagRead, it
 // supports element addressing (`name[N]`) AND preserves the underlying
 // element type of an existing typed slice when the caller hands us a
-- 
2.43.0


From b6e7c15ecd1b01a4ed5dd48584d1ae1c34d4536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 24/40] fix: path segments have the size and format they
 announce

---
 cip_definitions.go | 6 +++---
 path.go            | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index 17f3279..e006daf 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -13,7 +13,7 @@ func (p CIPAddress) Bytes() []byte {
 }
 
 func (p CIPAddress) Len() int {
-	return 0
+	return 1
 }
 
 // Represents a CIP class attribute id - that is a specific attribute of a given class.
@@ -112,7 +112,7 @@ func (p CIPElement) Bytes() []byte {
 	} else {
 
 		b := make([]byte, 6)
-		b[0] = byte(cipElement_16bit)
+		b[0] = byte(cipElement_32bit)
 		binary.LittleEndian.PutUint32(b[2:], uint32(p))
 		return b
 	}
@@ -121,7 +121,7 @@ func (p CIPElement) Bytes() []byte {
 func (p CIPElement) Len() int {
 	if p < 256 {
 		return 2
-	} else if p < 65535 {
+	} else if p < 65536 {
 		return 4
 	}
 	return 6
diff --git a/path.go b/path.go
index 1d72e1b..7c551d4 100644
--- a/path.go
+++ b/path.go
@@ -44,7 +44,7 @@ type CIPPort struct {
 }
 
 func (p CIPPort) Len() int {
-	return 2
+	return len(p.Bytes())
 }
 
 func (p CIPPort) Bytes() []byte {
@@ -90,6 +90,10 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			byte_path = append(byte_path, byte(l))
 			string_bytes := []byte(part)
 			byte_path = append(byte_path, string_bytes...)
+			if l%2 == 1 {
+				// segments are a whole number of 16 bit words. The pad byte isn't counted in the length.
+				byte_path = append(byte_path, 0x00)
+			}
 			continue
 		}
 		// not an IP address
-- 
2.43.0


From 62aba15a5b095515e05c9315cc6c3e46a39d1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 25/40] fix: Serialize doesn't announce more string bytes than
 it sends

---
 pack.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pack.go b/pack.go
index 01cb4f4..02227b8 100644
--- a/pack.go
+++ b/pack.go
@@ -59,14 +59,15 @@ func Serialize(strs ...any) (*bytes.Buffer, error) {
 	for _, str := range strs {
 		switch serializable_str := str.(type) {
 		case string:
+			// the length must not claim more bytes than the payload carries.
 			strlen := uint32(len(serializable_str))
+			if strlen > 84 {
+				strlen = 84
+			}
 			err := binary.Write(b, binary.LittleEndian, strlen)
 			if err != nil {
 				return nil, fmt.Errorf("problem writing string header: %w", err)
 			}
-			if strlen%2 == 1 {
-				strlen++
-			}
 			b2 := make([]byte, 84)
 			copy(b2, serializable_str)
 			err = binary.Write(b, binary.LittleEndian, b2)
-- 
2.43.0


From f27ea4a765b0bf96369bcbd93c93c9540325b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 26/40] fix: lengths, counts and nesting are checked before
 they are sent or used

---
 connect.go             | 21 ++++++++++---
 disconnect.go          |  6 +++-
 getattr.go             | 20 +++++++++---
 items.go               | 57 ++++++++++++++++++++++++++--------
 listallprograms.go     |  3 ++
 listalltags.go         |  6 +++-
 listmembers.go         | 40 ++++++++++++++++++++----
 listsubtags.go         | 13 ++++++--
 read.go                | 69 +++++++++++++++++++++++++++++-------------
 sendreceive.go         | 10 +++++-
 server_listidentity.go |  3 ++
 server_unconnected.go  |  3 ++
 udt_write.go           | 31 +++++++++++++++----
 write.go               | 17 +++++++++--
 14 files changed, 238 insertions(+), 61 deletions(-)

diff --git a/connect.go b/connect.go
index 64c8bf6..4a344ad 100644
--- a/connect.go
+++ b/connect.go
@@ -256,7 +256,12 @@ func (client *Client) KeepAlive() {
 		}
 	}
 
-	t := time.NewTicker(client.KeepAliveFrequency)
+	frequency := client.KeepAliveFrequency
+	if frequency <= 0 {
+		client.Logger.Error("keepalive frequency must be positive", slog.Any("client.KeepAliveFrequency", frequency))
+		return
+	}
+	t := time.NewTicker(frequency)
 	defer t.Stop()
 	for {
 		select {
@@ -379,6 +384,10 @@ func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	if err != nil {
 		return item, fmt.Errorf("couldn't build path. %w", err)
 	}
+	pathLength, err := pathWords(path.Bytes())
+	if err != nil {
+		return item, fmt.Errorf("couldn't build path. %w", err)
+	}
 
 	client.ConnectionSerialNumber = uint16(client.sequenceNumber.Add(1))
 	const (
@@ -417,7 +426,7 @@ func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	msg.ToRpi = uint32(client.RPI / time.Microsecond)
 	msg.TONetworkConnParams = connectionParameters
 	msg.TransportTrigger = 0xA3
-	msg.ConnPathSize = byte(path.Len() / 2)
+	msg.ConnPathSize = pathLength
 
 	err = item.Serialize(msg)
 	if err != nil {
@@ -458,6 +467,10 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 	if err != nil {
 		return item, fmt.Errorf("couldn't build path. %w", err)
 	}
+	pathLength, err := pathWords(path.Bytes())
+	if err != nil {
+		return item, fmt.Errorf("couldn't build path. %w", err)
+	}
 
 	client.ConnectionSerialNumber = uint16(client.sequenceNumber.Add(1))
 	const (
@@ -496,7 +509,7 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 	msg.ToRpi = uint32(client.RPI / time.Microsecond)
 	msg.TONetworkConnParams = connectionParameters
 	msg.TransportTrigger = 0xA3
-	msg.ConnPathSize = byte(path.Len() / 2)
+	msg.ConnPathSize = pathLength
 	err = item.Serialize(msg)
 	if err != nil {
 		return item, fmt.Errorf("error serializing forward open message. %w", err)
@@ -617,7 +630,7 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 		return nil, fmt.Errorf("error deserializing forward open response header. %w", err)
 	}
 
-	extended_status := make([]byte, respHeader.StatusLen*2)
+	extended_status := make([]byte, int(respHeader.StatusLen)*2)
 	if respHeader.StatusLen != 0 {
 		err = items[1].DeSerialize(&extended_status)
 		if err != nil {
diff --git a/disconnect.go b/disconnect.go
index b9a3d56..13e3520 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -83,6 +83,10 @@ func (client *Client) Disconnect() error {
 		client.Logger.Error("Error serializing path", slog.Any("err", err))
 		return fmt.Errorf("error serializing path: %w", err)
 	}
+	pathLength, err := pathWords(path.Bytes())
+	if err != nil {
+		return fmt.Errorf("error serializing path: %w", err)
+	}
 
 	msg := msgCipUnRegister{
 		Service:                CIPService_ForwardClose,
@@ -96,7 +100,7 @@ func (client *Client) Disconnect() error {
 		ConnectionSerialNumber: client.ConnectionSerialNumber,
 		VendorID:               client.VendorId,
 		OriginatorSerialNumber: client.SerialNumber,
-		PathSize:               byte(path.Len() / 2),
+		PathSize:               pathLength,
 		Reserved:               0x00,
 	}
 
diff --git a/getattr.go b/getattr.go
index c138f62..96e8525 100644
--- a/getattr.go
+++ b/getattr.go
@@ -257,11 +257,19 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	if err != nil {
 		return nil, fmt.Errorf("could not build path. %w", err)
 	}
+	pathLength, err := pathWords(path.Bytes())
+	if err != nil {
+		return nil, fmt.Errorf("could not build path. %w", err)
+	}
+	attrCount, err := wireLen16(len(attrs))
+	if err != nil {
+		return nil, fmt.Errorf("too many attributes. %w", err)
+	}
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetAttributeList,
-		PathLength:    byte(path.Len() / 2),
+		PathLength:    pathLength,
 	}
 
 	reqItems[1] = newItem(cipItem_ConnectedData, readMsg)
@@ -269,7 +277,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	if err != nil {
 		return nil, fmt.Errorf("could not serialize path. %w", err)
 	}
-	err = reqItems[1].Serialize(uint16(len(attrs)))
+	err = reqItems[1].Serialize(attrCount)
 	if err != nil {
 		return nil, fmt.Errorf("could not serialize attribute count. %w", err)
 	}
@@ -433,14 +441,18 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
+	pathLength, err := pathWords(path)
+	if err != nil {
+		return nil, fmt.Errorf("could not use path: %w", err)
+	}
 	readmsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
 		Service:       service,
-		PathLength:    byte(len(path) / 2),
+		PathLength:    pathLength,
 	}
 
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err := reqitems[1].Serialize(path)
+	err = reqitems[1].Serialize(path)
 	if err != nil {
 		return nil, fmt.Errorf("could not serialize path: %w", err)
 	}
diff --git a/items.go b/items.go
index e628b49..b0ead33 100644
--- a/items.go
+++ b/items.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 type CIPItemID uint16
@@ -82,12 +83,40 @@ func (item *CIPItem) Read(p []byte) (n int, err error) {
 //
 // Appends bytes to the end of the item's buffer.
 func (item *CIPItem) Write(p []byte) (n int, err error) {
+	length, err := wireLen16(len(item.Data) + len(p))
+	if err != nil {
+		return 0, fmt.Errorf("item is full: %w", err)
+	}
 	item.Data = append(item.Data, p...)
 	n = len(p)
-	item.Header.Length = uint16(len(item.Data))
+	item.Header.Length = length
 	return
 }
 
+// wireLen8 is for lengths and counts that are sent as a single byte.
+func wireLen8(n int) (byte, error) {
+	if n < 0 || n > math.MaxUint8 {
+		return 0, fmt.Errorf("length %d does not fit in one byte", n)
+	}
+	return byte(n), nil
+}
+
+// wireLen16 is for lengths and counts that are sent as two bytes.
+func wireLen16(n int) (uint16, error) {
+	if n < 0 || n > math.MaxUint16 {
+		return 0, fmt.Errorf("length %d does not fit in two bytes", n)
+	}
+	return uint16(n), nil
+}
+
+// pathWords is the length of an encoded path in 16 bit words as it is sent in front of the path.
+func pathWords(path []byte) (byte, error) {
+	if len(path)%2 != 0 {
+		return 0, fmt.Errorf("path length %d is not a multiple of 2", len(path))
+	}
+	return wireLen8(len(path) / 2)
+}
+
 // create an item given an item id and data structure
 func newItem(id CIPItemID, str any) CIPItem {
 	c := CIPItem{
@@ -215,15 +244,16 @@ func (item *CIPItem) Serialize(strs ...any) error {
 	for _, str := range strs {
 		switch x := str.(type) {
 		case string:
+			// a STRING is a fixed size slot, so as for the []string below the
+			// length must not claim more bytes than the payload carries.
 			strLen := uint32(len(x))
+			if strLen > 84 {
+				strLen = 84
+			}
 			err := binary.Write(item, binary.LittleEndian, strLen)
 			if err != nil {
 				return fmt.Errorf("problem writing string header: %v", err)
 			}
-			if strLen%2 == 1 {
-				strLen++
-			}
-			//b := make([]byte, strLen)
 			b := make([]byte, 84)
 			copy(b, x)
 			err = binary.Write(item, binary.LittleEndian, b)
@@ -247,11 +277,7 @@ func (item *CIPItem) Serialize(strs ...any) error {
 				// receiver never sees a header claiming more bytes than
 				// the slot actually carries. copy() below truncates the
 				// payload to 84 bytes; without clamping the header a
-				// >84-byte input would desync the receiver. This is
-				// stricter than the single-string case above, which
-				// writes the raw len(s) into the LEN header even when
-				// the payload gets truncated — out of scope to change
-				// here.
+				// >84-byte input would desync the receiver.
 				strLen := uint32(len(s))
 				if strLen > 84 {
 					strLen = 84
@@ -291,6 +317,9 @@ func (item *CIPItem) DeSerialize(str any) error {
 
 func (item *CIPItem) Bytes() ([]byte, error) {
 	b := bytes.Buffer{}
+	if int(item.Header.Length) != len(item.Data) {
+		return nil, fmt.Errorf("item length is %d but it has %d bytes of data", item.Header.Length, len(item.Data))
+	}
 	err := binary.Write(&b, binary.LittleEndian, item.Header)
 	if err != nil {
 		return b.Bytes(), fmt.Errorf("problem writing data. %v", err)
@@ -351,12 +380,16 @@ func serializeItems(items []CIPItem) (*[]byte, error) {
 
 	b := new(bytes.Buffer)
 
+	count, err := wireLen16(len(items))
+	if err != nil {
+		return nil, fmt.Errorf("too many items: %w", err)
+	}
 	item_hdr := cipItemsHeader{
 		InterfaceHandle: 0,
 		SequenceCounter: 0,
-		Count:           uint16(len(items)),
+		Count:           count,
 	}
-	err := binary.Write(b, binary.LittleEndian, item_hdr)
+	err = binary.Write(b, binary.LittleEndian, item_hdr)
 	if err != nil {
 		return nil, fmt.Errorf("problem serializing item header into b. %v", err)
 	}
diff --git a/listallprograms.go b/listallprograms.go
index b29c645..e36cd0e 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -40,6 +40,9 @@ func (client *Client) ListAllPrograms() error {
 		}
 
 		// read the name
+		if int64(hdr.NameLen) > int64(len(resp.Data)-resp.Pos) {
+			return fmt.Errorf("program name length %d is more than the reply holds", hdr.NameLen)
+		}
 		name := make([]byte, hdr.NameLen)
 		err = resp.DeSerialize(&name)
 		if err != nil {
diff --git a/listalltags.go b/listalltags.go
index 4f1328c..bb192a7 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -150,11 +150,15 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	if err != nil {
 		return fmt.Errorf("couldn't build path. %w", err)
 	}
+	pathLength, err := pathWords(path.Bytes())
+	if err != nil {
+		return fmt.Errorf("couldn't build path. %w", err)
+	}
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetInstanceAttributeList,
-		PathLength:    byte(path.Len() / 2),
+		PathLength:    pathLength,
 	}
 
 	// setup item
diff --git a/listmembers.go b/listmembers.go
index 17a025e..16d94ef 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
+	"slices"
 	"strings"
 )
 
@@ -61,11 +63,15 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	if err != nil {
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't build path. %w", err)
 	}
+	pathLength, err := pathWords(p.Bytes())
+	if err != nil {
+		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't build path. %w", err)
+	}
 
 	readmsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetAttributeList,
-		PathLength:    byte(p.Len() / 2),
+		PathLength:    pathLength,
 	}
 
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
@@ -85,6 +91,9 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		uint16(attr_MemberCount),
 		uint16(attr_symbol_type),
 	})
+	if err != nil {
+		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem serializing attribute list: %w", err)
+	}
 	// the attributes for the template object are
 	// 1 uint16 = Template Handle (Is this the CRC?)
 	// 2 uint16 = Number of members
@@ -158,8 +167,19 @@ func (m msgMemberInfo) CIPType() CIPType {
 // exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
 // changes, but v21 could also be the version since that is the swap from rslogix to studio
 func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
+	return client.listMembers(str_instance, nil)
+}
+
+// listMembers does the work of ListMembers. parents holds the instances that are being listed
+// right now because the template is a member of a member of them; a template can't contain itself.
+func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDescriptor, error) {
 	client.Logger.Debug("list members", "instance", str_instance)
 
+	if slices.Contains(parents, str_instance) {
+		return UDTDescriptor{}, fmt.Errorf("template %d contains itself", str_instance)
+	}
+	parents = append(slices.Clone(parents), str_instance)
+
 	d, ok := client.KnownTypesByID[str_instance]
 	if ok {
 		return d, nil
@@ -182,11 +202,15 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
 	}
+	pathLength, err := pathWords(p.Bytes())
+	if err != nil {
+		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
+	}
 
 	readmsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_Read,
-		PathLength:    byte(p.Len() / 2),
+		PathLength:    pathLength,
 	}
 
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
@@ -195,7 +219,11 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("problem serializing path: %w", err)
 	}
 	start_offset := uint32(0)
-	read_length := uint16(template_info.SizeWords*4 - 23)
+	template_bytes := int64(template_info.SizeWords)*4 - 23
+	if template_bytes < 0 || template_bytes > math.MaxUint16 {
+		return UDTDescriptor{}, fmt.Errorf("template %d can't be read: its size is %d words", str_instance, template_info.SizeWords)
+	}
+	read_length := uint16(template_bytes)
 	err = reqitems[1].Serialize(start_offset)
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("problem serializing item start offset: %w", err)
@@ -264,7 +292,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	if strings.Contains(struct_name, ";") {
 		struct_name = strings.Split(struct_name, ";")[0]
 	}
-	struct_name = struct_name[:len(struct_name)-1]
+	struct_name = strings.TrimSuffix(struct_name, "\x00")
 	descriptor.Name = struct_name
 
 	for i := 0; i < int(template_info.MemberCount); i++ {
@@ -273,14 +301,14 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		if err != nil && fieldname == "" {
 			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
 		}
-		fieldname = fieldname[:len(fieldname)-1]
+		fieldname = strings.TrimSuffix(fieldname, "\x00")
 
 		descriptor.Members[i].Name = fieldname
 		descriptor.Members[i].Info = memberInfos[i]
 		id := descriptor.Members[i].Template_ID()
 		if id != 0 {
 			// this is a UDT
-			d2, err := client.ListMembers(uint32(descriptor.Members[i].Template_ID()))
+			d2, err := client.listMembers(uint32(descriptor.Members[i].Template_ID()), parents)
 			if err != nil && !client.Connected() {
 				return UDTDescriptor{}, fmt.Errorf("lost connection listing members of %s: %w", fieldname, err)
 			}
diff --git a/listsubtags.go b/listsubtags.go
index fa5bb4e..cfd3d32 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -14,6 +15,9 @@ import (
 // also see https://forums.mrclient.com/index.php?/topic/40626-reading-and-writing-io-tags-in-plc/
 func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
 
+	if Program == nil {
+		return nil, errors.New("no program to list the tags of")
+	}
 	new_kts := make([]KnownTag, 0, 100)
 	client.Logger.Debug("readall", "start id", start_instance)
 
@@ -33,11 +37,15 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	if err != nil {
 		return new_kts, fmt.Errorf("couldn't build path. %w", err)
 	}
+	pathLength, err := pathWords(p.Bytes())
+	if err != nil {
+		return new_kts, fmt.Errorf("couldn't build path. %w", err)
+	}
 
 	readmsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetInstanceAttributeList,
-		PathLength:    byte(p.Len() / 2),
+		PathLength:    pathLength,
 	}
 
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
@@ -153,7 +161,8 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		if next_instance <= start_instance {
 			return new_kts, fmt.Errorf("no new tags in partial response from instance %d", start_instance)
 		}
-		_, err = client.ListSubTags(Program, next_instance)
+		more_kts, err := client.ListSubTags(Program, next_instance)
+		new_kts = append(new_kts, more_kts...)
 		if err != nil {
 			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
 		}
diff --git a/read.go b/read.go
index a8d74e3..387fdb5 100644
--- a/read.go
+++ b/read.go
@@ -143,7 +143,7 @@ func (client *Client) Read(tag string, data any) error {
 			}
 			return nil
 		}
-		v, err := readArray[uint32](client, tag, uint16(count))
+		v, err := readArray[uint32](client, tag, count)
 		if err != nil {
 			return err
 		}
@@ -159,7 +159,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []byte:
 		elements := len(data)
-		v, err := readArray[byte](client, tag, uint16(elements))
+		v, err := readArray[byte](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -172,7 +172,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []int8:
 		elements := len(data)
-		v, err := readArray[int8](client, tag, uint16(elements))
+		v, err := readArray[int8](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -185,7 +185,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []int16:
 		elements := len(data)
-		v, err := readArray[int16](client, tag, uint16(elements))
+		v, err := readArray[int16](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -198,7 +198,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []uint16:
 		elements := len(data)
-		v, err := readArray[uint16](client, tag, uint16(elements))
+		v, err := readArray[uint16](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -211,7 +211,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []int32:
 		elements := len(data)
-		v, err := readArray[int32](client, tag, uint16(elements))
+		v, err := readArray[int32](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -224,7 +224,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []uint32:
 		elements := len(data)
-		v, err := readArray[uint32](client, tag, uint16(elements))
+		v, err := readArray[uint32](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -237,7 +237,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []int64:
 		elements := len(data)
-		v, err := readArray[int64](client, tag, uint16(elements))
+		v, err := readArray[int64](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -250,7 +250,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []uint64:
 		elements := len(data)
-		v, err := readArray[uint64](client, tag, uint16(elements))
+		v, err := readArray[uint64](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -263,7 +263,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []float32:
 		elements := len(data)
-		v, err := readArray[float32](client, tag, uint16(elements))
+		v, err := readArray[float32](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -276,7 +276,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []float64:
 		elements := len(data)
-		v, err := readArray[float64](client, tag, uint16(elements))
+		v, err := readArray[float64](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -289,7 +289,7 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 	case []string:
 		elements := len(data)
-		v, err := readArray[string](client, tag, uint16(elements))
+		v, err := readArray[string](client, tag, elements)
 		if err != nil {
 			return err
 		}
@@ -350,7 +350,10 @@ func (client *Client) Read(tag string, data any) error {
 
 	case reflect.Slice:
 		// slice of structs.
-		elements := uint16(v.Len())
+		elements, err := wireLen16(v.Len())
+		if err != nil {
+			return fmt.Errorf("too many elements to read from %s. %w", tag, err)
+		}
 		val, err := client.Read_single(tag, CIPTypeStruct, elements)
 		if err != nil {
 			return err
@@ -408,6 +411,10 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 
 	ioi, err := client.newIOI(tag, datatype)
 
+	if err != nil {
+		return nil, err
+	}
+	pathLength, err := pathWords(ioi.Bytes())
 	if err != nil {
 		return nil, err
 	}
@@ -418,7 +425,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_Read,
-		PathLength:    byte(len(ioi.Bytes()) / 2),
+		PathLength:    pathLength,
 	}
 	// setup item
 	reqItems[1] = newItem(cipItem_ConnectedData, readMsg)
@@ -556,7 +563,11 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	}
 }
 
-func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T, error) {
+func readArray[T GoLogixTypes](client *Client, tag string, count int) ([]T, error) {
+	elements, err := wireLen16(count)
+	if err != nil {
+		return nil, fmt.Errorf("too many elements to read from %s. %w", tag, err)
+	}
 	t := make([]T, elements)
 	var zero T
 	ct, _ := GoVarToCIPType(zero)
@@ -828,6 +839,11 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		}
 	}
 
+	serviceCount, err := wireLen16(qty)
+	if err != nil {
+		return nil, fmt.Errorf("too many tags to read. %w", err)
+	}
+
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
@@ -836,7 +852,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		Service:      CIPService_MultipleService,
 		PathSize:     2,
 		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},
-		ServiceCount: uint16(qty),
+		ServiceCount: serviceCount,
 	}
 
 	b := bytes.Buffer{}
@@ -845,16 +861,23 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	jump_table := make([]uint16, qty)
 	jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry
 	for i := 0; i < qty; i++ {
-		jump_table[i] = uint16(jump_start + b.Len())
 		ioi := iois[i]
+		jump_table[i], err = wireLen16(jump_start + b.Len())
+		if err != nil {
+			return nil, fmt.Errorf("too much to read at once. %w", err)
+		}
+		pathLength, err := pathWords(ioi.Buffer)
+		if err != nil {
+			return nil, fmt.Errorf("problem with path of %s. %w", tags[i].TagName, err)
+		}
 		h := msgCIPMultiIOIHeader{
 			Service: CIPService_Read,
-			Size:    byte(len(ioi.Buffer) / 2),
+			Size:    pathLength,
 		}
 		f := msgCIPIOIFooter{
 			Elements: uint16(tags[i].Elements),
 		}
-		err := binary.Write(&b, binary.LittleEndian, h)
+		err = binary.Write(&b, binary.LittleEndian, h)
 		if err != nil {
 			return nil, fmt.Errorf("problem writing cip IO header to buffer. %w", err)
 		}
@@ -892,7 +915,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	// the item's data and the service code actually starts the next portion of the message.  But the item's header length reflects
 	// the total data so maybe not.
 	reqItems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
-	err := reqItems[1].Serialize(ioi_header, jump_table, &b)
+	err = reqItems[1].Serialize(ioi_header, jump_table, &b)
 	if err != nil {
 		return nil, fmt.Errorf("problem serializing item header: %w", err)
 	}
@@ -1246,10 +1269,14 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
+	pathLength, err := pathWords(ioi.Bytes())
+	if err != nil {
+		return nil, 0, err
+	}
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_FragRead,
-		PathLength:    byte(len(ioi.Bytes()) / 2),
+		PathLength:    pathLength,
 	}
 	reqItems[1] = newItem(cipItem_ConnectedData, readMsg)
 	if err := reqItems[1].Serialize(ioi, elements, offset); err != nil {
diff --git a/sendreceive.go b/sendreceive.go
index 23ef1b5..3821321 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"time"
 )
 
@@ -22,7 +23,14 @@ func (client *Client) sendMsgBuild(cmd CIPCommand, msgs ...any) ([]byte, error)
 	// calculate messageLen of all message parts
 	messageLen := 0
 	for _, msg := range msgs {
-		messageLen += binary.Size(msg)
+		size := binary.Size(msg)
+		if size < 0 {
+			return nil, fmt.Errorf("can't send a %T", msg)
+		}
+		messageLen += size
+	}
+	if messageLen > math.MaxUint16 {
+		return nil, fmt.Errorf("message of %d bytes is too long", messageLen)
 	}
 	// build header based on size
 	hdr := client.newEIPHeader(cmd, messageLen)
diff --git a/server_listidentity.go b/server_listidentity.go
index d1d1d75..f644d86 100644
--- a/server_listidentity.go
+++ b/server_listidentity.go
@@ -76,6 +76,9 @@ func buildListIdentityItemBody(attrs map[CIPAttribute]any, localIP net.IP, local
 	_ = binary.Write(&buf, binary.LittleEndian, revision)
 	_ = binary.Write(&buf, binary.LittleEndian, status)
 	_ = binary.Write(&buf, binary.LittleEndian, serial)
+	if len(productName) > 255 {
+		productName = productName[:255]
+	}
 	buf.WriteByte(byte(len(productName)))
 	buf.WriteString(productName)
 	// State — one byte, 0xFF when the device offers no state attribute.
diff --git a/server_unconnected.go b/server_unconnected.go
index e87b55c..ae5df23 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -328,6 +328,9 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 	if err := binary.Write(&buf, binary.LittleEndian, serial); err != nil {
 		return nil, err
 	}
+	if len(productName) > 255 {
+		productName = productName[:255]
+	}
 	buf.WriteByte(byte(len(productName)))
 	buf.WriteString(productName)
 	return buf.Bytes(), nil
diff --git a/udt_write.go b/udt_write.go
index 6b24879..175139f 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -146,6 +146,11 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 		}
 	}
 
+	serviceCount, err := wireLen16(qty)
+	if err != nil {
+		return fmt.Errorf("too many tags to write. %w", err)
+	}
+
 	reqitems := make([]CIPItem, 2)
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
@@ -154,7 +159,7 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 		Service:      CIPService_MultipleService,
 		PathSize:     2,
 		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},
-		ServiceCount: uint16(qty),
+		ServiceCount: serviceCount,
 	}
 
 	b := bytes.Buffer{}
@@ -163,20 +168,34 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	jump_table := make([]uint16, qty)
 	jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry
 	for i := 0; i < qty; i++ {
-		jump_table[i] = uint16(jump_start + b.Len())
 		ioi := iois[i]
+		jump_table[i], err = wireLen16(jump_start + b.Len())
+		if err != nil {
+			return fmt.Errorf("too much to write at once. %w", err)
+		}
+		pathLength, err := pathWords(ioi.Buffer)
+		if err != nil {
+			return fmt.Errorf("problem with path of %s. %w", tags[i], err)
+		}
 		h := msgCIPMultiIOIHeader{
 			Service: CIPService_Write,
-			Size:    byte(len(ioi.Buffer) / 2),
+			Size:    pathLength,
+		}
+		elements := uint16(1)
+		if v := reflect.ValueOf(tag_str[tags[i]]); v.Kind() == reflect.Slice {
+			elements, err = wireLen16(v.Len())
+			if err != nil {
+				return fmt.Errorf("too many elements to write to %s. %w", tags[i], err)
+			}
 		}
 		f := msgCIPWriteIOIFooter{
 			DataType: uint16(types[i]),
-			Elements: 1,
+			Elements: elements,
 		}
 		//f := msgCIPIOIFooter{
 		//Elements: 1,
 		//}
-		err := binary.Write(&b, binary.LittleEndian, h)
+		err = binary.Write(&b, binary.LittleEndian, h)
 		if err != nil {
 			return fmt.Errorf("problem writing udt item header to buffer. %w", err)
 		}
@@ -203,7 +222,7 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	// the item's data and the service code actually starts the next portion of the message.  But the item's header length reflects
 	// the total data so maybe not.
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
-	err := reqitems[1].Serialize(ioi_header, jump_table, &b)
+	err = reqitems[1].Serialize(ioi_header, jump_table, &b)
 	if err != nil {
 		return fmt.Errorf("problem serializing item header: %w", err)
 	}
diff --git a/write.go b/write.go
index c453752..8482960 100644
--- a/write.go
+++ b/write.go
@@ -120,12 +120,16 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem generating IOI. %w", err)
 	}
+	pathLength, err := pathWords(ioi.Buffer)
+	if err != nil {
+		return fmt.Errorf("problem generating IOI. %w", err)
+	}
 	elements := uint16(1)
 
 	ioi_header := msgCIPIOIHeader{
 		Sequence: uint16(sequencer()),
 		Service:  CIPService_Write,
-		Size:     byte(len(ioi.Buffer) / 2),
+		Size:     pathLength,
 	}
 
 	_, typecrc, err := TypeEncode(value)
@@ -228,17 +232,24 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem generating IOI. %w", err)
 	}
+	pathLength, err := pathWords(ioi.Buffer)
+	if err != nil {
+		return fmt.Errorf("problem generating IOI. %w", err)
+	}
 	elements := uint16(1)
 
 	v := reflect.ValueOf(value)
 	if v.Kind() == reflect.Slice {
-		elements = uint16(v.Len())
+		elements, err = wireLen16(v.Len())
+		if err != nil {
+			return fmt.Errorf("too many elements. %w", err)
+		}
 	}
 
 	ioi_header := msgCIPIOIHeader{
 		Sequence: uint16(sequencer()),
 		Service:  CIPService_Write,
-		Size:     byte(len(ioi.Buffer) / 2),
+		Size:     pathLength,
 	}
 	ioi_footer := msgCIPWriteIOIFooter{
 		DataType: uint16(datatype),
-- 
2.43.0


From df03b45957353bc3fa8b54076669eebb8ccc17d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 27/40] fix: absent elements and types that contain themselves
 don't crash loading an export

---
 l5x/load_tags.go | 82 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 18 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 23db452..405ee4a 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -2,16 +2,40 @@ package l5x
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
 
+// almost every element of an export is optional, so these return nothing for one that is absent.
+
+func controllerOf(l5xData RSLogix5000Content) *ControllerType {
+	if l5xData == nil || l5xData.Controller == nil {
+		return &ControllerType{}
+	}
+	return l5xData.Controller
+}
+
+func tagsOf(tags *TagCollectionType) []*TagType {
+	if tags == nil {
+		return nil
+	}
+	return tags.Tag
+}
+
+func programsOf(programs *ProgramCollectionType) []*AProgramType {
+	if programs == nil {
+		return nil
+	}
+	return programs.Program
+}
+
 func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
 	var err error
 	tags := make(map[string]any)
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
+	for _, tag := range tagsOf(controllerOf(l5xData).Tags) {
 		if tag.Data != nil {
 			if len(tag.Data) > 1 {
 				if tag.Data[1].DataValue != nil {
@@ -24,10 +48,10 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
+	for _, program := range programsOf(controllerOf(l5xData).Programs) {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
+		for _, tag := range tagsOf(program.Tags) {
 			tagname := tag.NameAttr
 			tagtype := tag.DataTypeAttr
 			if len(tag.Data) > 1 {
@@ -54,13 +78,13 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 				// or an array of atomic values or structures
 				if tag.Data[1].Array != nil {
 
-					dims, err := strconv.ParseInt(tag.DimensionsAttr, 10, 64)
+					_, err := strconv.ParseInt(tag.DimensionsAttr, 10, 64)
 					if err != nil {
 						return nil, fmt.Errorf("%s.%s invalid dimensions on %s: %s", progprefix, tagname, tag.DimensionsAttr, err)
 					}
-					arrValue := make([]any, 0, dims)
+					arrValue := make([]any, 0, len(tag.Data[1].Array.Element))
 					for _, element := range tag.Data[1].Array.Element {
-						if element.Structure != nil {
+						if len(element.Structure) > 0 {
 							// this is an array of structures
 							myValue := make(map[string]any)
 							for _, member := range element.Structure[0].DataValueMember {
@@ -103,7 +127,11 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	var err error
 	tags := make(map[string]string)
 
-	for _, module := range l5xData.Controller.Modules.Module {
+	var modules []*MapDeviceType
+	if m := controllerOf(l5xData).Modules; m != nil {
+		modules = m.Module
+	}
+	for _, module := range modules {
 		if module.Communications == nil {
 			continue
 		}
@@ -148,7 +176,7 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
+	for _, tag := range tagsOf(controllerOf(l5xData).Tags) {
 
 		mydesc := ""
 		if tag.Data != nil {
@@ -168,10 +196,10 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
+	for _, program := range programsOf(controllerOf(l5xData).Programs) {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
+		for _, tag := range tagsOf(program.Tags) {
 			tagname := tag.NameAttr
 			if len(tag.Description) > 1 {
 				comment := ""
@@ -194,7 +222,10 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	comments := make(map[string]string)
 
 	taskLookup := make(map[string]string)
-	tasks := l5xData.Controller.Tasks.Task
+	var tasks []*TaskType
+	if t := controllerOf(l5xData).Tasks; t != nil {
+		tasks = t.Task
+	}
 	for _, task := range tasks {
 		if task.ScheduledPrograms == nil {
 			continue
@@ -204,7 +235,10 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
+	for _, program := range programsOf(controllerOf(l5xData).Programs) {
+		if program.Routines == nil {
+			continue
+		}
 		for _, routine := range program.Routines.Routine {
 			for _, rungContent := range routine.RLLContent {
 				for _, rung := range rungContent.Rung {
@@ -228,18 +262,26 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 func GetDataTypeMap(l5xData RSLogix5000Content) map[string]*DataTypeType {
 	dataTypes := make(map[string]*DataTypeType)
 
-	for _, dataType := range l5xData.Controller.DataTypes.DataType {
-		dataTypes[dataType.NameAttr] = dataType
+	if types := controllerOf(l5xData).DataTypes; types != nil {
+		for _, dataType := range types.DataType {
+			dataTypes[dataType.NameAttr] = dataType
+		}
 	}
 
 	return dataTypes
 }
 
 func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string]string {
+	return getTypeComments(types, typeName, nil)
+}
+
+// parents are the types that typeName is a member of, or a member of a member of.
+func getTypeComments(types map[string]*DataTypeType, typeName string, parents []string) map[string]string {
 	dt, ok := types[typeName]
-	if !ok {
+	if !ok || dt == nil || slices.Contains(parents, typeName) {
 		return nil
 	}
+	parents = append(slices.Clone(parents), typeName)
 	out := make(map[string]string)
 	myDescription := ""
 	if dt.Description != nil {
@@ -248,8 +290,9 @@ func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string
 	out[typeName] = myDescription
 	members := dt.Members
 	if members == nil {
+		return out
 	}
-	for _, member := range dt.Members.Member {
+	for _, member := range members.Member {
 		//typeName := fmt.Sprintf("%s.%s", typeName, member.NameAttr)
 		memberDesc := myDescription
 		if member.Description != nil {
@@ -261,10 +304,13 @@ func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string
 		}
 		name := member.NameAttr
 		//out[member.NameAttr] = memberDesc
-		submembers := GetTypeComments(types, member.DataTypeAttr)
+		submembers := getTypeComments(types, member.DataTypeAttr, parents)
 		if member.DataTypeAttr == "BIT" {
 			// bit number is BitNumberAttr + TargetAttr[-2:] - 1 ?
-			offset_str := member.TargetAttr[len(member.TargetAttr)-2:]
+			offset_str := member.TargetAttr
+			if len(offset_str) > 2 {
+				offset_str = offset_str[len(offset_str)-2:]
+			}
 			offset_str = strings.TrimLeft(offset_str, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
 			num, err := strconv.Atoi(offset_str)
 			if err != nil {
-- 
2.43.0


From 4c9677d8c75a56532bed495cee24d53caf26fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 28/40] fix: a data table only talks about tags the controller
 knows, and only while it exists

---
 datatable.go | 120 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 85 insertions(+), 35 deletions(-)

diff --git a/datatable.go b/datatable.go
index 06bbbe5..5676f0d 100644
--- a/datatable.go
+++ b/datatable.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
+	"slices"
 	"sort"
 	"strings"
 )
@@ -43,6 +45,8 @@ type DataTableBuffer struct {
 	// Value: the expanded individual tag names (e.g. ["EXAMPLE[1,0]", ..., "EXAMPLE[1,4]"])
 	expansions map[string][]string
 
+	lastIndex uint16 // the index given to the last tag that was added
+
 	created bool // true after successful Create
 	synched bool // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
 }
@@ -97,6 +101,9 @@ func (buf *DataTableBuffer) resolveTypeSize(tagName string, cipType CIPType) (ui
 	if cipType == CIPTypeSTRING || cipType == CIPTypeStruct {
 		kt, ok := buf.client.KnownTags[strings.ToLower(tagName)]
 		if ok && kt.UDT != nil && kt.UDT.Info.SizeBytes > 0 {
+			if kt.UDT.Info.SizeBytes > math.MaxUint16 {
+				return 0, fmt.Errorf("type of %d bytes is too big for a datatable buffer", kt.UDT.Info.SizeBytes)
+			}
 			return uint16(kt.UDT.Info.SizeBytes), nil
 		}
 	}
@@ -178,7 +185,6 @@ func (client *Client) DeleteDataTableBuffer(instanceID uint16) error {
 type addTagEntry struct {
 	dataTypeSize uint16
 	ioi          []byte
-	index        int // the position of this tag in the buffer's tags slice, used to update batchID and synched after a successful add
 }
 
 // DataTableAddTags sends a CIP service 0x4E to the specified datatable buffer instance,
@@ -212,10 +218,15 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 	}
 	msgData := make([]byte, 0, capacity)
 
+	count, err := wireLen8(len(entries))
+	if err != nil {
+		return 0, fmt.Errorf("too many tags to add at once: %w", err)
+	}
+
 	// Header: 02 00 01 01
 	msgData = append(msgData, 0x02, 0x00, 0x01, 0x01)
 	// Tag count
-	msgData = append(msgData, byte(len(entries)))
+	msgData = append(msgData, count)
 
 	for _, e := range entries {
 		// Per-tag: dataTypeSize LE16
@@ -223,7 +234,11 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 		binary.LittleEndian.PutUint16(sizeBytes, e.dataTypeSize)
 		msgData = append(msgData, sizeBytes...)
 		// Per-tag: IOI length in 16-bit words
-		msgData = append(msgData, byte(len(e.ioi)/2))
+		words, err := pathWords(e.ioi)
+		if err != nil {
+			return 0, fmt.Errorf("could not add tag to datatable buffer: %w", err)
+		}
+		msgData = append(msgData, words)
 		// Per-tag: IOI EPath bytes
 		msgData = append(msgData, e.ioi...)
 	}
@@ -244,7 +259,7 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 // DataTableAddTag sends a CIP service 0x4E to add a single tag to the datatable buffer.
 // This is a convenience wrapper around DataTableAddTags for single-tag adds.
 func (client *Client) DataTableAddTag(instanceID uint16, dataTypeSize uint16, tagIOIs []byte) (uint16, error) {
-	return client.DataTableAddTags(instanceID, []addTagEntry{{dataTypeSize, tagIOIs, 0}})
+	return client.DataTableAddTags(instanceID, []addTagEntry{{dataTypeSize, tagIOIs}})
 }
 
 // DataTableReadBuffer sends a CIP Read (0x4C) service to the specified datatable
@@ -321,6 +336,15 @@ func (client *Client) NewDataTableBuffer() (*DataTableBuffer, error) {
 	}, nil
 }
 
+// nextIndex returns the index for the next tag that is added. They are never reused, even if tags were removed.
+func (buf *DataTableBuffer) nextIndex() (uint16, error) {
+	if buf.lastIndex == math.MaxUint16 {
+		return 0, fmt.Errorf("too many tags in datatable buffer")
+	}
+	buf.lastIndex++
+	return buf.lastIndex, nil
+}
+
 // Add a tag to the datatable buffer and associate it with a reference to a Go variable.
 // When the buffer is read, the decoded value for this tag will also be updated to the value
 // that was read from the PLC.
@@ -341,13 +365,18 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 		return fmt.Errorf("tag %q: %w", tagName, err)
 	}
 
+	index, err := buf.nextIndex()
+	if err != nil {
+		return fmt.Errorf("tag %q: %w", tagName, err)
+	}
+
 	buf.synched = false
 
 	buf.tags = append(buf.tags, DataTableBufferTag{
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
+		index:        index,
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -377,13 +406,18 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 		return fmt.Errorf("tag %q: %w", tagName, err)
 	}
 
+	index, err := buf.nextIndex()
+	if err != nil {
+		return fmt.Errorf("tag %q: %w", tagName, err)
+	}
+
 	buf.synched = false
 
 	buf.tags = append(buf.tags, DataTableBufferTag{
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
+		index:        index,
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -396,21 +430,30 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 // marking them as synched if successful. This is called automatically by ReadAll if there are unsynched tags, but can be
 // called manually if you want to control when the tags are sent to the PLC (e.g. to group multiple AddTag calls into one batch).
 func (buf *DataTableBuffer) SyncTags() error {
+	if !buf.created {
+		return fmt.Errorf("datatable buffer not created")
+	}
 	entries := make([]addTagEntry, 0)
 	for i := range buf.tags {
 		if buf.tags[i].synched {
 			continue
 		}
-		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, i})
+		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi})
+	}
+	if len(entries) == 0 {
+		buf.synched = true
+		return nil
 	}
 
 	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
 	if err != nil {
 		return fmt.Errorf("could not add tags to buffer: %w", err)
 	}
-	for _, entry := range entries {
-		buf.tags[entry.index].batchID = batchID
-		buf.tags[entry.index].synched = true
+	for i := range buf.tags {
+		if !buf.tags[i].synched {
+			buf.tags[i].batchID = batchID
+			buf.tags[i].synched = true
+		}
 	}
 	buf.synched = true
 	return nil
@@ -453,29 +496,23 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 		})
 	}
 
-	// Build entries for a single DataTableAddTags call.
-	entries := make([]addTagEntry, len(prepared))
-	for i, t := range prepared {
-		entries[i] = addTagEntry{
-			dataTypeSize: t.typeSize,
-			ioi:          t.ioi,
+	// Assign sequential indices.
+	for _, t := range prepared {
+		index, err := buf.nextIndex()
+		if err != nil {
+			return fmt.Errorf("tag %q: %w", t.name, err)
 		}
-	}
-
-	// Assign sequential indices and record the batch ID for read parsing.
-	baseIndex := uint16(len(buf.tags) + 1)
-	for i, t := range prepared {
+		buf.synched = false
 		buf.tags = append(buf.tags, DataTableBufferTag{
 			Name:         t.name,
 			CIPType:      t.cipType,
 			DataTypeSize: t.typeSize,
-			index:        baseIndex + uint16(i),
+			index:        index,
 			ioi:          t.ioi,
 			batchID:      0,
 			synched:      false,
 		})
 	}
-	buf.synched = false
 
 	return nil
 }
@@ -663,9 +700,19 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 		return fmt.Errorf("tag %q not found in buffer", tagName)
 	}
 
-	err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
-	if err != nil {
-		return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+	// the controller doesn't know about the tag until it is synched.
+	if buf.tags[idx].synched {
+		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		if err != nil {
+			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+		}
+	}
+
+	// what remains of an expanded tag can't be collapsed back into a slice any more.
+	for baseName, expanded := range buf.expansions {
+		if slices.Contains(expanded, tagName) {
+			delete(buf.expansions, baseName)
+		}
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
@@ -763,16 +810,13 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	}
 
 	// Reflect over struct fields
-	T := reflect.TypeOf(str)
-	if T.Kind() == reflect.Ptr {
-		T = T.Elem()
-	}
-	v := reflect.ValueOf(str)
-	if v.Kind() == reflect.Ptr {
-		v = v.Elem()
+	ptr := reflect.ValueOf(str)
+	if ptr.Kind() != reflect.Ptr || ptr.IsNil() || ptr.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("need a pointer to a struct to read into, got %T", str)
 	}
+	v := ptr.Elem()
 
-	vf := reflect.VisibleFields(T)
+	vf := reflect.VisibleFields(v.Type())
 	tagMap := make(map[string]CIPType)
 	varPtrs := make(map[string]any)
 
@@ -785,7 +829,13 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		fieldVal := v.Field(i)
+		fieldVal, err := v.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("can't read into field %s: %w", field.Name, err)
+		}
+		if !fieldVal.CanSet() {
+			return fmt.Errorf("can't read into field %s", field.Name)
+		}
 		cipType, elements := GoVarToCIPType(fieldVal.Interface())
 
 		// Handle slices/arrays (multi-element tags)
-- 
2.43.0


From a24cf952bd6a28185f28fd64ceec43579410d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 29/40] fix: error replies on a connection carry its id and the
 request's sequence count

---
 server_connected.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 4107aa4..e066514 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -280,12 +280,12 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 	var connID uint32
 	err := items[0].DeSerialize(&connID)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_InvalidParameter, 0)
+		err2 := h.sendConnectedError(reqSvc, h.UnitDataSequencer, h.TOConnectionID, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("couldn't get connection ID from item 0: %w / %v", err, err2)
 	}
 	connection, err := h.server.ConnMgr.GetByOT(connID)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_ConnectionLost, 0)
+		err2 := h.sendConnectedError(reqSvc, h.UnitDataSequencer, h.TOConnectionID, CIPStatus_ConnectionLost, 0)
 		return fmt.Errorf("couldn't get connection with ID %v: %w /%v", connID, err, err2)
 	}
 
-- 
2.43.0


From a2fb1ed591e3edbec7cbbbbf0f2b0ec4640f362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 30/40] fix: failures while encoding, writing or decoding are
 returned instead of dropped

---
 getattr.go         |  1 +
 listallprograms.go |  5 ++---
 pack.go            | 11 ++++++-----
 read.go            |  2 ++
 write.go           |  2 ++
 5 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/getattr.go b/getattr.go
index 96e8525..1499933 100644
--- a/getattr.go
+++ b/getattr.go
@@ -145,6 +145,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header.", "error", err)
+		return nil, fmt.Errorf("problem reading result header: %w", err)
 	}
 	items, err := readItems(data)
 	if err != nil {
diff --git a/listallprograms.go b/listallprograms.go
index e36cd0e..6985a29 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -31,12 +31,11 @@ func (client *Client) ListAllPrograms() error {
 
 	results := make(map[string]*KnownProgram)
 
-	for {
+	for resp.Pos < len(resp.Data) {
 		var hdr listprograms_resp_header
 		err = resp.DeSerialize(&hdr)
 		if err != nil {
-			client.Logger.Debug("got last item")
-			break
+			return fmt.Errorf("problem reading program header: %w", err)
 		}
 
 		// read the name
diff --git a/pack.go b/pack.go
index 02227b8..1393d00 100644
--- a/pack.go
+++ b/pack.go
@@ -102,10 +102,7 @@ func Pack(w io.Writer, data any) (int, error) {
 		return d.Pack(w)
 	case Serializable:
 		n, err := w.Write(d.Bytes())
-		if err != nil {
-			return 0, nil
-		}
-		return n, nil
+		return n, err
 	}
 
 	// keep track of how many bytes we've written.  This is so we can correct field alignment with padding bytes if needed
@@ -448,7 +445,11 @@ func TypeEncode(data any) (string, uint16, error) {
 			if arr.Type().Elem().Kind() != reflect.Struct {
 				at, _ = goTypeToLogixTypeName(field.Type.Elem())
 			} else {
-				at, _, _ = TypeEncode(arr.Index(0).Interface())
+				var err error
+				at, _, err = TypeEncode(arr.Index(0).Interface())
+				if err != nil {
+					return "", 0, fmt.Errorf("problem encoding array element: %w", err)
+				}
 			}
 			encoded += fmt.Sprintf(",%s[%d]", at, arr.Len())
 			continue
diff --git a/read.go b/read.go
index 387fdb5..f974db1 100644
--- a/read.go
+++ b/read.go
@@ -449,6 +449,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
+		return nil, fmt.Errorf("problem reading result header: %w", err)
 	}
 	items, err := readItems(data)
 	if err != nil {
@@ -938,6 +939,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
+		return nil, fmt.Errorf("problem reading result header: %w", err)
 	}
 	items, err := readItems(data)
 	if err != nil {
diff --git a/write.go b/write.go
index 8482960..25cc980 100644
--- a/write.go
+++ b/write.go
@@ -195,6 +195,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
+		return fmt.Errorf("problem reading result header: %w", err)
 	}
 	items, err := readItems(data)
 	if err != nil {
@@ -294,6 +295,7 @@ func (client *Client) write_single(tag string, value any) error {
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
+		return fmt.Errorf("problem reading result header: %w", err)
 	}
 	items, err := readItems(data)
 	if err != nil {
-- 
2.43.0


From e4109bd09ae8584c29822adb16f7f44c68389cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:16 +0000
Subject: [PATCH 31/40] fix: forces enabled and forces installed are different
 bits of the force status

---
 canned/forces.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/canned/forces.go b/canned/forces.go
index 7311d7b..86682cd 100644
--- a/canned/forces.go
+++ b/canned/forces.go
@@ -8,8 +8,9 @@ import (
 
 type ForceStatus uint16
 
+// Enabled is bit 1 of the force status.  Bit 0 says whether forces are installed.
 func (f ForceStatus) Enabled() bool {
-	return f&1 != 0
+	return f&2 != 0
 }
 func (f ForceStatus) Exist() bool {
 	return f&1 != 0
-- 
2.43.0


From 64291dabd792bc7d39c0ff3eb7450f9a21a350c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:16 +0000
Subject: [PATCH 32/40] fix: a fault type's bit is the one numbered like the
 fault type

---
 canned/faults.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/canned/faults.go b/canned/faults.go
index 5fb1887..6e0c726 100644
--- a/canned/faults.go
+++ b/canned/faults.go
@@ -58,8 +58,9 @@ type FaultSummary struct {
 }
 
 const (
-	FaultType_None           FaultType = 1 << iota // bit 1
-	FaultType_Powerup                              // bit 2
+	FaultType_None           FaultType = 1 << iota // bit 0
+	FaultType_Powerup                              // bit 1
+	_                                              // 2
 	FaultType_IO                                   // bit 3
 	FaultType_Program                              // bit 4
 	_                                              // 5
-- 
2.43.0


From e65ff5e18e715a17ecac03bf2bb34b7f6cf1a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:12 +0000
Subject: [PATCH 33/40] fix: the over-temperature fault is type 17 code 34

---
 canned/fault_descriptions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/canned/fault_descriptions.go b/canned/fault_descriptions.go
index 29ef8a4..e007535 100644
--- a/canned/fault_descriptions.go
+++ b/canned/fault_descriptions.go
@@ -1445,9 +1445,9 @@ var FaultDescriptions = map[int]map[int]FaultDescription{
 			Major:            false,
 			TypeName:         "Diagnostic",
 		},
-		32: {
+		34: {
 			Type:             17,
-			Code:             31,
+			Code:             34,
 			Display:          "Major Fault T17:C34 - Diagnostic Fault: Controller internal temperature has exceeded operating limit.",
 			Description:      "Controller internal temperature has exceeded the operating limit.",
 			CorrectiveAction: "Take measures to reduce the ambient temperature of the module. Follow the recommended limits for the ambient (inlet) temperature and apply the required clearance around the chassis.",
-- 
2.43.0


From c4411f43d98313a1452f316bcb1bbdf65e89ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 34/40] fix: the type tables agree on ULINT, LWORD, WORD and
 the bits of a SINT

---
 taggroup.go |  2 +-
 types.go    | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/taggroup.go b/taggroup.go
index de7644d..261f5be 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -65,7 +65,7 @@ func zeroValueForTagDef(def TagDef) any {
 			return make([]byte, def.Elements)
 		case CIPTypeINT:
 			return make([]int16, def.Elements)
-		case CIPTypeUINT:
+		case CIPTypeUINT, CIPTypeWORD:
 			return make([]uint16, def.Elements)
 		case CIPTypeDINT:
 			return make([]int32, def.Elements)
diff --git a/types.go b/types.go
index 75730d6..7a9c714 100644
--- a/types.go
+++ b/types.go
@@ -196,8 +196,10 @@ func (c CIPType) String() string {
 		return "0xC7 - UINT"
 	case CIPTypeUDINT:
 		return "0xC8 - UDINT"
+	case CIPTypeULINT:
+		return "0xC9 - ULINT"
 	case CIPTypeLWORD:
-		return "0xC9 - LWORD"
+		return "0xD4 - LWORD"
 	case CIPTypeREAL:
 		return "0xCA - REAL"
 	case CIPTypeLREAL:
@@ -269,7 +271,7 @@ func readValue(t CIPType, r io.Reader) (any, error) {
 		var trueval uint32
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
-	case CIPTypeLWORD:
+	case CIPTypeULINT, CIPTypeLWORD:
 		var trueval uint64
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
@@ -336,9 +338,9 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 		}
 	case CIPTypeSINT:
 		if bitpos >= 0 && bitpos < 8 {
-			x, ok := v.(byte)
+			x, ok := v.(int8)
 			if ok {
-				mask := byte(1 << bitpos)
+				mask := int8(1 << bitpos)
 				masked := x & mask
 				return masked != 0, nil
 			}
@@ -404,7 +406,7 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 			}
 			err = fmt.Errorf("value was a UDINT, but bit %d was requested. must be 0-31 for UDINT", bitpos)
 		}
-	case CIPTypeLWORD:
+	case CIPTypeULINT, CIPTypeLWORD:
 		if bitpos >= 0 && bitpos < 64 {
 			x, ok := v.(uint64)
 			if ok {
@@ -448,5 +450,5 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	return false, err
+	return false, fmt.Errorf("no bit %d in a %s", bitpos, t)
 }
-- 
2.43.0


From 4d805c7cabd4876787c712e8e0c88c9a29382995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:20 +0000
Subject: [PATCH 35/40] fix: Unpack decodes a plain value instead of panicking
 on it

ReadPacked reads the raw bytes into a *[]byte, and decoding the elements of that slice
asked a uint8 for its number of fields.
---
 pack.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pack.go b/pack.go
index 1393d00..0562866 100644
--- a/pack.go
+++ b/pack.go
@@ -281,6 +281,17 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 	case reflect.Struct:
 		// continue on
 
+	default:
+		// a single value, if it is anything we can decode at all.
+		s := binary.Size(data)
+		if s < 0 {
+			return n, fmt.Errorf("can't unpack into a %T", data)
+		}
+		err = binary.Read(r, p.Order(), data)
+		if err != nil {
+			return n, fmt.Errorf("problem unpacking value. %w", err)
+		}
+		return s, nil
 	}
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
-- 
2.43.0


From 9caab4283b16372bf03d0b67ce11d0ede453ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:22 +0000
Subject: [PATCH 36/40] fix: Read reports a destination it can't read into

Anything but a pointer or a slice was left as it was and nil was returned.
---
 read.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/read.go b/read.go
index f974db1..ae3bbe1 100644
--- a/read.go
+++ b/read.go
@@ -371,6 +371,8 @@ func (client *Client) Read(tag string, data any) error {
 			return fmt.Errorf("couldn't parse str data element %w", err)
 		}
 
+	default:
+		return fmt.Errorf("can't read %s into a %T", tag, data)
 	}
 
 	return nil
-- 
2.43.0


From 722764571758497e6430b32cc133f58b0c40cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:23 +0000
Subject: [PATCH 37/40] fix: AddTaggedStruct gives every field its own tag

Two fields with one tag name left all but the last one of them unset, and a second struct
with the same tag took over the variables of the first.
---
 datatable.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/datatable.go b/datatable.go
index 5676f0d..7a5bdba 100644
--- a/datatable.go
+++ b/datatable.go
@@ -843,6 +843,9 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 			expanded := expandArrayTag(tagPath, elements)
 			buf.expansions[tagPath] = expanded
 			for idx, name := range expanded {
+				if _, dup := tagMap[name]; dup {
+					return fmt.Errorf("tag %q is used by more than one field", name)
+				}
 				tagMap[name] = cipType
 				// For slices, set Var to the element pointer
 				if fieldVal.Kind() == reflect.Slice && fieldVal.Len() > idx {
@@ -850,6 +853,9 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 				}
 			}
 		} else {
+			if _, dup := tagMap[tagPath]; dup {
+				return fmt.Errorf("tag %q is used by more than one field", tagPath)
+			}
 			buf.expansions[tagPath] = []string{tagPath}
 			tagMap[tagPath] = cipType
 			varPtrs[tagPath] = fieldVal.Addr().Interface()
@@ -857,13 +863,14 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	}
 
 	// Add tags to buffer
+	before := len(buf.tags)
 	err := buf.AddTags(tagMap)
 	if err != nil {
 		return err
 	}
 
-	// Set Var pointers for each tag
-	for i := range buf.tags {
+	// Set Var pointers for each tag that was added for this struct
+	for i := before; i < len(buf.tags); i++ {
 		if ptr, ok := varPtrs[buf.tags[i].Name]; ok {
 			buf.tags[i].Var = ptr
 		}
-- 
2.43.0


From 7df259fd8acc5c5cb6b39b87fd94a50562b97349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:25 +0000
Subject: [PATCH 38/40] fix: Pack encodes a plain value instead of panicking on
 it

---
 pack.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pack.go b/pack.go
index 0562866..9be0fc1 100644
--- a/pack.go
+++ b/pack.go
@@ -114,8 +114,20 @@ func Pack(w io.Writer, data any) (int, error) {
 	bitpack := byte(0)
 
 	// start reflecting and loop through the fields of the struct
-	refType := reflect.TypeOf(data)
 	refVal := reflect.ValueOf(data)
+	if refVal.Kind() != reflect.Struct {
+		// a single value, if it is anything we can encode at all.
+		s := binary.Size(data)
+		if s < 0 {
+			return pos, fmt.Errorf("can't pack a %T", data)
+		}
+		err := binary.Write(w, p.Order(), data)
+		if err != nil {
+			return pos, fmt.Errorf("problem packing value. %w", err)
+		}
+		return s, nil
+	}
+	refType := refVal.Type()
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
 		a := p.Align(field.Type)
-- 
2.43.0


From 0ed1c9da3c68c52657328bf3e261baa301a88eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:42 +0000
Subject: [PATCH 39/40] fix: Read rejects a []any destination

It asked the controller for the tag twice and then panicked decoding into the first element.
---
 read.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/read.go b/read.go
index ae3bbe1..3e402db 100644
--- a/read.go
+++ b/read.go
@@ -311,21 +311,8 @@ func (client *Client) Read(tag string, data any) error {
 		return nil
 
 	case []interface{}:
-		// a pointer to a struct.
-		val, err := client.Read_single(tag, CIPTypeStruct, 1)
-		if err != nil {
-			return err
-		}
-		cast, ok := val.([]byte)
-		if !ok {
-			return errors.New("couldn't convert to byte slice")
-		}
-		b := bytes.NewBuffer(cast)
-		//err = binary.Read(b, binary.LittleEndian, data)
-		_, err = Unpack(b, data)
-		if err != nil {
-			return fmt.Errorf("couldn't parse str data. %w", err)
-		}
+		// there is no way to tell what the elements are supposed to be.
+		return fmt.Errorf("can't read %s into a %T", tag, data)
 	}
 	// Fallback to reflect-based decoding.
 	v := reflect.ValueOf(data)
-- 
2.43.0


From 1961fa9d60d5be9469efd803f49ffdff21859fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:08 +0000
Subject: [PATCH 40/40] fix: error instead of panic when writing a struct with
 unexported fields

---
 udt_write.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 175139f..bed1c97 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -19,6 +19,12 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := f.Tag.Get("gologix")
+		if v.Kind() == reflect.Array {
+			continue //TODO
+		}
+		if !v.CanInterface() {
+			return nil, fmt.Errorf("can't write unexported field %s of %T", f.Name, data)
+		}
 		switch v.Kind() {
 		case reflect.Struct:
 			d2, err := udt_to_dict(fulltag, v.Interface())
@@ -28,8 +34,6 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 			for k := range d2 {
 				d[k] = d2[k]
 			}
-		case reflect.Array:
-			//TODO
 		default:
 			d[fulltag] = v.Interface()
 		}
@@ -52,8 +56,11 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := fmt.Sprintf("%s.%s", tag, f.Name)
-		switch v.Kind() {
-
+		if v.Kind() == reflect.Array {
+			continue //TODO
+		}
+		if !v.CanInterface() {
+			return nil, fmt.Errorf("can't write unexported field %s of %T", f.Name, data)
 		}
 		switch v.Kind() {
 		case reflect.Struct:
@@ -64,8 +71,6 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 			for k := range d2 {
 				d[k] = d2[k]
 			}
-		case reflect.Array:
-			//TODO
 		default:
 			d[fulltag] = v.Interface()
 		}
-- 
2.43.0

