# (name, 'bad'|'ok', property, [(file, old, new), ...])
M=[]
def bad(n,p,*e): M.append((n,'bad',p,list(e)))
def ok(n,*e): M.append((n,'ok','',list(e)))

bad('c01-unlock-before-recv','C01',('sendreceive.go','''	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
''','''	client.mutex.Unlock()
	hdr, buf, err := client.recvData()
'''))
bad('c02-stuck-connecting','C02',('connect.go','''			client.mutex.Lock()
			client.connStatus = connectionStatusDisconnected
			client.mutex.Unlock()
		}
		if success''','''			if conn == nil {
				return
			}
			client.mutex.Lock()
			client.connStatus = connectionStatusDisconnected
			client.mutex.Unlock()
		}
		if success'''))
bad('c02-early-success','C02',('connect.go','''	if client.ConnectionSize <= connSizeStandardMax {
		item, err := client.newForwardOpenStandard()
		if err != nil {
			return err
		}
''','''	if client.ConnectionSize <= connSizeStandardMax {
		item, err := client.newForwardOpenStandard()
		if err != nil {
			return err
		}
		success = true
'''))
bad('c02-open-err-dropped','C02',('connect.go','''		_, err = client.forwardOpen(item)
		if err != nil {
			client.Logger.Error("unable to open connection", slog.Any("err", err))
			return err
		}''','''		_, err = client.forwardOpen(item)
		if err != nil {
			client.Logger.Error("unable to open connection", slog.Any("err", err))
		}'''))
bad('c02-reg-status','C02',('connect.go','	if header.Status != 0 {\n		msg := "session','	if header.Status != 0 && header.SessionHandle == 0 {\n		msg := "session'))
bad('c02-status-cmp','C02',('connect.go','	if respHeader.Status != CIPStatus_OK {','	if respHeader.Status != CIPStatus_OK && respHeader.Status != CIPStatus_PartialTransfer {'))
bad('c02-disc-stuck','C02',('disconnect.go','''		if err := client.conn.Close(); err != nil {
			client.Logger.Error("error closing connection", slog.Any("err", err))
		}''','''		if err := client.conn.Close(); err != nil {
			client.Logger.Error("error closing connection", slog.Any("err", err))
			return
		}'''))
bad('c03-no-close-on-disc','C03',('disconnect.go','''	client.stopKeepAlive()

	items''','''	client.stopKeepAlive()
	if client.SessionHandle == 0 {
		client.mutex.Lock()
		client.connStatus = connectionStatusDisconnected
		client.mutex.Unlock()
		return nil
	}

	items'''),('disconnect.go','''		if err := client.conn.Close(); err != nil {
			client.Logger.Error("error closing connection", slog.Any("err", err))
		}
		client.mutex.Lock()''','''		if client.SessionHandle != 0 {
			client.conn.Close()
		}
		client.mutex.Lock()'''))
bad('c03-redial','C03',('connect.go','''			client.ConnectionSize = connSizeStandardDefault
		}''','''			client.ConnectionSize = connSizeStandardDefault
			conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
			if err != nil {
				return err
			}
			client.conn = conn
		}'''))
bad('c04-no-deadline-zero','C04',('sendreceive.go','''	} else {
		err = client.conn.SetReadDeadline(time.Now().Add(time.Second))
		if err != nil {
			return hdr, nil, fmt.Errorf("problem setting read deadline: %w", err)
		}
	}
	err = binary.Read(client.conn, binary.LittleEndian, &hdr)''','''	}
	err = binary.Read(client.conn, binary.LittleEndian, &hdr)'''))
bad('c04-dial','C04',('connect.go','net.DialTimeout("tcp", address, client.SocketTimeout)','net.Dial("tcp", address)'))
bad('c05-no-disc','C05',('sendreceive.go','''	if err != nil {
		err2 := client.Disconnect()
		if err2 != nil {
			return hdr''','''	if err != nil {
		if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
			return hdr, buf, err
		}
		err2 := client.Disconnect()
		if err2 != nil {
			return hdr'''))
bad('c05-partial','C05',('sendreceive.go','''		if err != nil {
			return hdr, nil, fmt.Errorf("problem reading socket payload: %w", err)
		}''','''		if err != nil && hdr.Command != cipCommandSendUnitData {
			return hdr, nil, fmt.Errorf("problem reading socket payload: %w", err)
		}
		err = nil'''))
bad('c05-single-read','C05',('sendreceive.go','''		err = binary.Read(client.conn, binary.LittleEndian, &data)
''','''		_, err = client.conn.Read(data)
'''))
bad('c06-write-status','C06',('write.go','''	if hdr2.Status != CIPStatus_OK {
		extended''','''	if hdr2.Status != CIPStatus_OK && hdr2.StatusExtended != 0 {
		extended'''))
bad('c06-frag','C06',('read.go','''		if status == 0 {
			return accumulated.Bytes(), nil''','''		if status != byte(CIPStatus_PartialTransfer) && accumulated.Len() >= int(elements) {
			return accumulated.Bytes(), nil'''))
bad('c06-multi','C06',('read.go','''		if rHdr.Status != uint16(CIPStatus_OK) {
			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
		}''','''		if rHdr.Status != uint16(CIPStatus_OK) && rHdr.Status != uint16(CIPStatus_PartialTransfer) {
			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
		}'''))
bad('c06-multi2','C06',('read.go','''		if rHdr.Status != uint16(CIPStatus_OK) {
			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
		}''','''		if rHdr.Status != uint16(CIPStatus_OK) && qtyOK {
			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
		}'''),('read.go','''	result_values := make([]interface{}, reply_hdr.Reply_Count)
''','''	result_values := make([]interface{}, reply_hdr.Reply_Count)
	qtyOK := int(reply_hdr.Reply_Count) == len(tags)
'''))
bad('c06-attrlist','C06',('getattr.go','''	if respHdr.Status != uint16(CIPStatus_OK) {
		return &items[1], fmt''','''	if respHdr.Status != uint16(CIPStatus_OK) && len(attrs) == 1 {
		return &items[1], fmt'''))
bad('c07-readlist-seq','C07',('udt_write.go','		Sequence:     uint16(sequencer()),','		Sequence:     uint16(sequenceValue),'))
bad('c07-hoist','C07',('read.go','''		fragData, status, err := client.sendFragReadRequest(ioi, elements, offset)''','''		fragData, status, err := client.sendFragReadRequest(ioi, elements, offset, seq)'''),
 ('read.go','offset uint32) ([]byte, byte, error) {','offset uint32, seq uint16) ([]byte, byte, error) {'),
 ('read.go','''		SequenceCount: uint16(sequencer()),
		Service:       CIPService_FragRead,''','''		SequenceCount: seq,
		Service:       CIPService_FragRead,'''),
 ('read.go','''	accumulated := bytes.NewBuffer(''','''	seq := uint16(sequencer())
	accumulated := bytes.NewBuffer('''))
bad('c09-guard','C09',('sendreceive.go','''	if client.conn == nil {
		client.mutex.Unlock()
		return eipHeader{}, nil, errors''','''	if client.conn == nil && client.connStatus != connectionStatusDisconnected {
		client.mutex.Unlock()
		return eipHeader{}, nil, errors'''))
bad('c09-nilconn','C09',('disconnect.go','''		client.connStatus = connectionStatusDisconnected
		client.mutex.Unlock()
	}()''','''		client.connStatus = connectionStatusDisconnected
		client.conn = nil
		client.mutex.Unlock()
	}()'''))
bad('c10-leak','C10',('sendreceive.go','''	if err != nil {
		client.mutex.Unlock()
		return eipHeader{}, nil, fmt.Errorf("error preparing''','''	if err != nil {
		return eipHeader{}, nil, fmt.Errorf("error preparing'''))
bad('c11-cache','C11',('ioi.go','''	client.ioi_cache_lock.Lock()
''',''''''),('ioi.go','''	defer client.ioi_cache_lock.Unlock()
''','''''')) if False else None

ok('ok-recv-helper',('sendreceive.go','''		if err != nil {
			return hdr, nil, fmt.Errorf("problem reading socket payload: %w", err)
		}''','''		if err != nil {
			err = fmt.Errorf("problem reading socket payload: %w", err)
			return hdr, nil, err
		}'''))
ok('ok-exchange-helper',('sendreceive.go','''	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
	if err != nil {
		err2 := client.Disconnect()
		if err2 != nil {
			return hdr, buf, fmt.Errorf("error disconnecting after recvError %w: %w", err, err2)
		}
		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w", err)
	}
	return hdr, buf, nil
}
''','''	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
	if err != nil {
		return hdr, buf, client.dropAfter("receiving", err)
	}
	return hdr, buf, nil
}

func (client *Client) dropAfter(what string, err error) error {
	if err2 := client.Disconnect(); err2 != nil {
		return fmt.Errorf("error disconnecting after %s %w: %w", what, err, err2)
	}
	return fmt.Errorf("error %s data resulting in forced disconnect: %w", what, err)
}
'''))
ok('ok-deadline-helper',('sendreceive.go','''	if client.SocketTimeout != 0 {
		err = client.conn.SetReadDeadline(time.Now().Add(client.SocketTimeout))
		if err != nil {
			return hdr, nil, fmt.Errorf("problem setting read deadline: %w", err)
		}
	} else {
		err = client.conn.SetReadDeadline(time.Now().Add(time.Second))
		if err != nil {
			return hdr, nil, fmt.Errorf("problem setting read deadline: %w", err)
		}
	}
	err = binary.Read(client.conn, binary.LittleEndian, &hdr)''','''	if err = client.armRead(); err != nil {
		return hdr, nil, err
	}
	err = binary.Read(client.conn, binary.LittleEndian, &hdr)'''),('sendreceive.go','func (client *Client) DebugCloseConn() {','''func (client *Client) armRead() error {
	d := client.SocketTimeout
	if d == 0 {
		d = time.Second
	}
	if err := client.conn.SetReadDeadline(time.Now().Add(d)); err != nil {
		return fmt.Errorf("problem setting read deadline: %w", err)
	}
	return nil
}

func (client *Client) DebugCloseConn() {'''))
ok('ok-write-status-helper',('write.go','''	if hdr2.Status != CIPStatus_OK {
		extended := uint16(0)
		if hdr2.StatusExtended == 1 {
			err = items[1].DeSerialize(&extended)
			return fmt.Errorf("got status %d:%d:%d instead of 0 in write response.  Problem getting extended status %w",
				hdr2.Status,
				hdr2.StatusExtended,
				extended,
				err)

		}
		return fmt.Errorf("got status %d:%d:%d instead of 0 in write response", hdr2.Status, hdr2.StatusExtended, extended)
	}
	return err
}

// write a single value''','''	return checkWriteStatus(hdr2, &items[1])
}

func checkWriteStatus(h msgWriteResultHeader, item *CIPItem) error {
	if h.Status == CIPStatus_OK {
		return nil
	}
	extended := uint16(0)
	if h.StatusExtended == 1 {
		err := item.DeSerialize(&extended)
		return fmt.Errorf("got status %d:%d:%d instead of 0 in write response.  Problem getting extended status %w", h.Status, h.StatusExtended, extended, err)
	}
	return fmt.Errorf("got status %d:%d:%d instead of 0 in write response", h.Status, h.StatusExtended, extended)
}

// write a single value'''))
ok('ok-connect-helper',('connect.go','''	if client.ConnectionSize > connSizeStandardMax {
		item, err := client.newForwardOpenLarge()
		if err != nil {
			return err
		}
		answered''','''	if err = client.openLogical(); err != nil {
		return err
	}

	success = true
	if client.KeepAliveAutoStart {
		go client.KeepAlive()
	}
	return nil
}

func (client *Client) openLogical() error {
	if client.ConnectionSize > connSizeStandardMax {
		item, err := client.newForwardOpenLarge()
		if err != nil {
			return err
		}
		answered'''),('connect.go','''			client.Logger.Error("unable to open connection", slog.Any("err", err))
			return err
		}
	}

	success = true
	if client.KeepAliveAutoStart {
		go client.KeepAlive()
	}
	return nil
}''','''			client.Logger.Error("unable to open connection", slog.Any("err", err))
			return err
		}
	}
	return nil
}'''))

bad('c12-nil-close','C12',('disconnect.go','''	if client.cancel_keepalive != nil {
		close(client.cancel_keepalive)''','''	if client.keepAliveRunning {
		close(client.cancel_keepalive)'''),('connect.go','''	client.cancel_keepalive = cancel
	client.keepAliveRunning = true
	client.mutex.Unlock()
	client.Logger.Debug("starting''','''	client.keepAliveRunning = true
	client.mutex.Unlock()
	client.mutex.Lock()
	client.cancel_keepalive = cancel
	client.mutex.Unlock()
	client.Logger.Debug("starting'''))
bad('c12-not-niled','C12',('disconnect.go','''		close(client.cancel_keepalive)
		client.cancel_keepalive = nil
''','''		close(client.cancel_keepalive)
'''))
bad('c12-unlocked','C12',('disconnect.go','''func (client *Client) stopKeepAlive() {
	client.mutex.Lock()
	defer client.mutex.Unlock()
''','''func (client *Client) stopKeepAlive() {
'''))
bad('c12-no-claim','C12',('connect.go','''	if client.keepAliveRunning {
		client.mutex.Unlock()
		err :=''','''	if client.keepAliveRunning && client.cancel_keepalive == nil {
		client.mutex.Unlock()
		err :='''))
bad('c12-toctou','C12',('connect.go','''	client.cancel_keepalive = cancel
	client.keepAliveRunning = true
''','''	client.mutex.Unlock()
	client.mutex.Lock()
	client.cancel_keepalive = cancel
	client.keepAliveRunning = true
'''))
bad('c12-foreign-clear','C12',('connect.go','''		if client.cancel_keepalive == cancel {
			client.cancel_keepalive = nil
			client.keepAliveRunning = false
		}''','''		client.cancel_keepalive = nil
		client.keepAliveRunning = false'''))
bad('c12-no-return','C12',('connect.go','''			client.KeepAliveAutoStart = false
			return
''','''			client.KeepAliveAutoStart = false
			if !client.Connected() {
				return
			}
'''))
bad('c12-no-stop','C12',('disconnect.go','''	client.stopKeepAlive()

	items''','''	if client.KeepAliveAutoStart {
		client.stopKeepAlive()
	}

	items'''))
bad('c12-nopub','C12',('connect.go','''		case <-cancel:
			client''','''		case <-client.cancel_keepalive:
			client'''))
ok('ok-keepalive-swap',('disconnect.go','''	client.mutex.Lock()
	defer client.mutex.Unlock()
	if client.cancel_keepalive != nil {
		close(client.cancel_keepalive)
		client.cancel_keepalive = nil
		client.keepAliveRunning = false
	}''','''	client.mutex.Lock()
	cancel := client.cancel_keepalive
	client.cancel_keepalive = nil
	client.keepAliveRunning = false
	client.mutex.Unlock()
	if cancel != nil {
		close(cancel)
	}'''))
ok('ok-keepalive-claim',('connect.go','''	client.mutex.Lock()
	if client.keepAliveRunning {
		client.mutex.Unlock()
		err := errors.New("keepalive already running")
		client.Logger.Warn(err.Error())
		return
	}
	client.cancel_keepalive = cancel
	client.keepAliveRunning = true
	client.mutex.Unlock()
''','''	if !client.claimKeepAlive(cancel) {
		client.Logger.Warn(errors.New("keepalive already running").Error())
		return
	}
'''),('connect.go','''func (client *Client) KeepAlive() {''','''func (client *Client) claimKeepAlive(cancel chan struct{}) bool {
	client.mutex.Lock()
	defer client.mutex.Unlock()
	running := client.keepAliveRunning
	if !running {
		client.keepAliveRunning = true
		client.cancel_keepalive = cancel
	}
	return !running
}

func (client *Client) KeepAlive() {'''))
ok('ok-keepalive-tick',('connect.go','''		select {
		case <-t.C:
			if !client.Connected() {''','''		if stop := func() bool {
			select {
			case <-cancel:
				client.KeepAliveAutoStart = false
				return true
			case <-t.C:
				return false
			}
		}(); stop {
			return
		}
		{
			if !client.Connected() {'''),('connect.go','''				originalProps = newProps
			}

		case <-cancel:
			client.KeepAliveAutoStart = false
			return
		}''','''				originalProps = newProps
			}
		}'''))
# --- server: C21 C22 C23 C24 C25 C33
bad('c21-default-dropped','C21',('server_unconnected.go','''		h.server.Logger.Warn("unsupported unconnected service", "service", service)
		return h.sendUnconnectedErrorReply(service, CIPStatus_ServiceNotSupported)
''','''		h.server.Logger.Warn("unsupported unconnected service", "service", service)
'''))
bad('c21-double-reply','C21',('server_unconnected.go','''		h.server.Logger.Warn("set_attr_single: tag write failed", "tag", tagName, "err", err)
		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_InvalidAttributeValue)
''','''		h.server.Logger.Warn("set_attr_single: tag write failed", "tag", tagName, "err", err)
		if e2 := h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_InvalidAttributeValue); e2 != nil {
			return e2
		}
'''))
bad('c21-err-swallowed','C21',('server.go','''		err = h.connectedMulti(items)
		if err != nil {
			return fmt.Errorf("problem handling multi service. %w", err)
		}
''','''		err = h.connectedMulti(items)
		if err != nil {
			h.server.Logger.Warn("problem handling multi service", "error", err)
		}
'''))
bad('c21-body-short','C21',('server.go','''		_, err = io.ReadFull(h.conn, body)
''','''		_, err = h.conn.Read(body)
'''))
bad('c21-unknown-skip-body','C21',('server.go','''		body := make([]byte, eipHdr.Length)
		_, err = io.ReadFull(h.conn, body)
		if err != nil {
			return fmt.Errorf("problem reading eip message. %w", err)
		}
''','''		body := make([]byte, eipHdr.Length)
		if eipHdr.Command != cipCommandListServices {
			_, err = io.ReadFull(h.conn, body)
			if err != nil {
				return fmt.Errorf("problem reading eip message. %w", err)
			}
		}
'''))
bad('c21-symlist-empty-silent','C21',('server.go','''		return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, nil)
	}
''','''		return nil
	}
'''))
bad('c22-context-late','C22',('server.go','''		h.context = eipHdr.Context
''','''		if eipHdr.Command != cipCommandListIdentity {
			h.context = eipHdr.Context
		}
'''))
bad('c22-gaa-wrong-service','C22',('server.go','''		return h.sendUnitDataErrorReply(CIPService_GetAttributeAll, CIPStatus_PathSegmentError)
''','''		return h.sendUnitDataErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathSegmentError)
'''))
bad('c22-noresp-bit','C22',('server.go','''	resp := msgWriteResultHeader{
		SequenceCount: h.UnitDataSequencer,
		Service:       s.AsResponse(),
		Status:        status,
	}''','''	resp := msgWriteResultHeader{
		SequenceCount: h.UnitDataSequencer,
		Service:       s,
		Status:        status,
	}'''))
bad('c22-seq-fresh','C22',('server.go','''	resp := msgWriteResultHeader{
		SequenceCount: h.UnitDataSequencer,
		Service:       s.AsResponse(),
		Status:        status,
	}''','''	resp := msgWriteResultHeader{
		SequenceCount: h.UnitDataSequencer + 1,
		Service:       s.AsResponse(),
		Status:        status,
	}'''))
bad('c22-outer-service','C22',('server_unconnected.go','''			return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)
''','''			return h.sendUnconnectedErrorReply(service, CIPStatus_ServiceNotSupported)
'''))
bad('c22-fragread-success-code','C22',('server_connected.go','''		if res_str, ok := result.(string); ok {
			return h.sendConnectedReply(reqSvc, seq''','''		if res_str, ok := result.(string); ok {
			return h.sendConnectedReply(CIPService_Read, seq'''))
bad('c23-write-warn','C23',('server_unconnected.go','''	} else {
		err = p.TagWrite(tag, results[0])
		if err != nil {
			return fmt.Errorf("problem writing tag %v. %w", tag, err)
		}
	}

	return h.sendUnconnectedRRDataReply(CIPService_Write)
''','''	} else {
		err = p.TagWrite(tag, results[0])
		if err != nil {
			h.server.Logger.Warn("problem writing", "tag", tag, "error", err)
		}
	}

	return h.sendUnconnectedRRDataReply(CIPService_Write)
'''))
bad('c23-ack-before-write','C23',('server_connected.go','''			if qty > 1 {
				err = p.TagWrite(tag, writeTags)
				if err != nil {
					return fmt.Errorf("problem writing tag %v. %w", tag, err)
				}
			} else {
				err = p.TagWrite(tag, writeTags[0])
				if err != nil {
					return fmt.Errorf("problem writing tag %v. %w", tag, err)
				}
			}

			results[i]''','''			if qty > 1 {
				err = p.TagWrite(tag, writeTags)
			} else {
				err = p.TagWrite(tag, writeTags[0])
			}
			if err != nil {
				h.server.Logger.Warn("problem writing", "tag", tag, "error", err)
			}

			results[i]'''))
bad('c23-setattr-ok-on-resolve-failure','C23',('server_unconnected.go','''	if len(values) == 0 {
		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_NotEnoughData)
	}
''','''	if len(values) == 0 {
		return h.sendUnconnectedRRDataReply(CIPService_SetAttributeSingle)
	}
'''))
bad('c23-readerr-status-ok','C23',('server_connected.go','''		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
''','''		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_OK, 0)
'''))
bad('c24-owner-missing','C24',('server.go','''		VendorID:               fwd_open.VendorID,
		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
		owner:                  h,
	}
	// the connection is released with the session if anything fails from here on.
	h.server.ConnMgr.Add(cipConnection)
	fwd_open.OTConnectionID = cipConnection.OT
	h.TOConnectionID = fwd_open.TOConnectionID
	h.OTConnectionID = fwd_open.OTConnectionID
	// See''','''		VendorID:               fwd_open.VendorID,
		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
	}
	// the connection is released with the session if anything fails from here on.
	h.server.ConnMgr.Add(cipConnection)
	fwd_open.OTConnectionID = cipConnection.OT
	h.TOConnectionID = fwd_open.TOConnectionID
	h.OTConnectionID = fwd_open.OTConnectionID
	// See'''))
bad('c24-close-keeps-open-flag','C24',('server_connections.go','''			conn.Open = false
			cm.Connections = append''','''			cm.Connections = append'''))
bad('c24-session-end-leaks','C24',('server.go','''		h.conn.Close()
		srv.ConnMgr.closeOwnedBy(h)
''','''		if err := h.conn.Close(); err != nil {
			return
		}
		srv.ConnMgr.closeOwnedBy(h)
'''))
bad('c24-filter-inverted-mark','C24',('server_connections.go','''		if conn.owner == owner {
			conn.Open = false
			continue
		}
		kept''','''		if conn.owner == owner {
			continue
		}
		conn.Open = false
		kept'''))
bad('c24-io-check-once','C24',('server.go','''		if !h.server.ConnMgr.IsOpen(conn) {
''','''		if seq == 1 && !h.server.ConnMgr.IsOpen(conn) {
'''))
bad('c24-reject-after-add','C24',('server.go','''	h.server.ConnMgr.Add(cipConnection)
	fwd_open.OTConnectionID = cipConnection.OT
	h.TOConnectionID = fwd_open.TOConnectionID
	h.OTConnectionID = fwd_open.OTConnectionID
	// See''','''	h.server.ConnMgr.Add(cipConnection)
	if fwd_open.OTRPI == 0 {
		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_InvalidParameterValue)
	}
	fwd_open.OTConnectionID = cipConnection.OT
	h.TOConnectionID = fwd_open.TOConnectionID
	h.OTConnectionID = fwd_open.OTConnectionID
	// See'''))
bad('c24-cut-wrong','C24',('server_connections.go','''append(cm.Connections[:i], cm.Connections[i+1:]...)''','''append(cm.Connections[:i], cm.Connections[i:]...)'''))
bad('c25-udp-spin','C25',('server.go','''			if !isTemporary(err) {
				return fmt.Errorf("problem with udp read: %w", err)
			}
''',''''''))
bad('c25-no-conn-close','C25',('server.go','''		h.conn.Close()
		srv.ConnMgr.closeOwnedBy(h)
''','''		srv.ConnMgr.closeOwnedBy(h)
'''))
bad('c33-close-serial','C33',('disconnect.go','''		ConnectionSerialNumber: client.ConnectionSerialNumber,
''','''		ConnectionSerialNumber: uint16(client.sequenceNumber.Load()),
'''))
bad('c33-fallback-serial','C33',('connect.go','''	client.ConnectionSerialNumber = uint16(client.sequenceNumber.Add(1))
''','''	serial := uint16(client.sequenceNumber.Add(1))
	if client.ConnectionSerialNumber == 0 {
		client.ConnectionSerialNumber = serial
	}
''' ),('connect.go','''	msg.ConnectionSerialNumber = client.ConnectionSerialNumber
''','''	msg.ConnectionSerialNumber = serial
'''))
bad('c33-session-from-request','C33',('connect.go','''	client.SessionHandle = header.SessionHandle
''','''	client.SessionHandle = uint32(header.Context)
'''))
bad('c33-getattr-to-id','C33',('getattr.go','''newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)''','''newItem(cipItem_ConnectionAddress, &client.SessionHandle)'''))
bad('c33-reply-to','C33',('connect.go','''	client.OTNetworkConnectionID = respContent.OtNetworkConnectionId
''','''	client.OTNetworkConnectionID = respContent.TOConnectionId
'''))
bad('c33-reply-layout','C33',('connect.go','''	OtNetworkConnectionId  uint32
	TOConnectionId         uint32
''','''	TOConnectionId         uint32
	OtNetworkConnectionId  uint32
'''))
bad('c33-close-two-ids','C33',('server_connections.go','''conn.ID == ID && conn.VendorID == vendorID && conn.OriginatorSerialNumber''','''conn.ID == ID && conn.OriginatorSerialNumber'''),('server_connections.go','''		if conn.ID == ID && conn.OriginatorSerialNumber == originatorSerialNumber {
''','''		_ = vendorID
		if conn.ID == ID && conn.OriginatorSerialNumber == originatorSerialNumber {
'''))
bad('c33-multi-conn','C33',('server_connected.go','''sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response''','''sendConnectedReply(CIPService_MultipleService, seq, connection.OT, response'''))
bad('c33-serial-on-retry','C33',('disconnect.go','''	client.stopKeepAlive()

	items''','''	client.stopKeepAlive()
	client.ConnectionSerialNumber++

	items'''))

# ---- C32
bad('c32-read-be','C32',('listsubtags.go','binary.Read(data2, binary.LittleEndian, tag_ftr)','binary.Read(data2, binary.BigEndian, tag_ftr)'))
bad('c32-port-le','C32',('server_listidentity.go','binary.Write(&buf, binary.BigEndian, localPort)','binary.Write(&buf, binary.LittleEndian, localPort)'))
bad('c32-family-le','C32',('server_listidentity.go','binary.Write(&buf, binary.BigEndian, uint16(2))','binary.Write(&buf, binary.LittleEndian, uint16(2))'))
bad('c32-vendor-be','C32',('server_listidentity.go','binary.Write(&buf, binary.LittleEndian, vendor)','binary.Write(&buf, binary.BigEndian, vendor)'))
bad('c32-order-native','C32',('pack.go','''func (p cipPack) Order() binary.ByteOrder {
	return binary.LittleEndian''','''func (p cipPack) Order() binary.ByteOrder {
	return binary.NativeEndian'''))
bad('c32-hand','C32',('cip_definitions.go','''		b[0] = byte(cipElement_16bit)
		binary.LittleEndian.PutUint16(b[2:], uint16(p))''','''		b[0] = byte(cipElement_16bit)
		b[2], b[3] = byte(p>>8), byte(p)'''))
bad('c32-hand-load','C32',('items.go','''	val := binary.LittleEndian.Uint16(item.Data[item.Pos:])
	item.Pos += 2
	return val, nil''','''	val := uint16(item.Data[item.Pos])<<8 | uint16(item.Data[item.Pos+1])
	item.Pos += 2
	return val, nil'''))
bad('c32-int-field','C32',('messages.go','binary.Write(&b, binary.LittleEndian, ftr)','binary.Write(&b, binary.LittleEndian, struct{ E int }{int(ftr.Elements)})'))
bad('c32-sock-le','C32',('listidentity.go','binary.Read(buf, binary.BigEndian, &s.SocketAddress)','binary.Read(buf, binary.LittleEndian, &s.SocketAddress)'))
ok('c32-hand-le',('cip_definitions.go','''		b[0] = byte(cipElement_16bit)
		binary.LittleEndian.PutUint16(b[2:], uint16(p))''','''		b[0] = byte(cipElement_16bit)
		b[2], b[3] = byte(p), byte(p>>8)'''))
ok('c32-hand-loop',('cip_definitions.go','''		b[0] = byte(cipElement_16bit)
		binary.LittleEndian.PutUint16(b[2:], uint16(p))''','''		b[0] = byte(cipElement_16bit)
		for i := 0; i < 2; i++ {
			b[2+i] = byte(p >> (8 * i))
		}'''))
ok('c32-sock-fields',('listidentity.go','''	err = binary.Read(buf, binary.BigEndian, &s.SocketAddress)
''','''	err = binary.Read(buf, binary.BigEndian, &s.SocketAddress.Family)
	if err == nil {
		err = binary.Read(buf, binary.BigEndian, &s.SocketAddress.Port)
	}
	if err == nil {
		err = binary.Read(buf, binary.BigEndian, &s.SocketAddress.Address)
	}
	if err == nil {
		err = binary.Read(buf, binary.BigEndian, &s.SocketAddress.Zero0)
	}
	if err == nil {
		err = binary.Read(buf, binary.BigEndian, &s.SocketAddress.Zero1)
	}
'''))
ok('c32-order-var',('listsubtags.go','binary.Read(data2, binary.LittleEndian, tag_ftr)','binary.Read(data2, cipPack{}.Order(), tag_ftr)'))

# ---- C28
bad('c28-log-only','C28',('listsubtags.go','''		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
		if err != nil {
			return''','''		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
		if err != nil && len(newtag_bytes) == 0 {
			return'''))
bad('c28-overwritten','C28',('items.go','''			err := binary.Write(item, binary.LittleEndian, x.Bytes())
			if err != nil {
				return fmt.Errorf("problem writing serializable item: %v", err)
			}''','''			binary.Write(item, binary.LittleEndian, x.Bytes())'''))
bad('c28-eof','C28',('listalltags.go','''		err = binary.Read(data2, binary.LittleEndian, &tag_name)
		if err != nil {''','''		err = binary.Read(data2, binary.LittleEndian, &tag_name)
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {'''),('listalltags.go','''	"errors"
''','''	"errors"
	"io"
'''))
bad('c28-shadow','C28',('udt_write.go','''	err = binary.Read(data, binary.LittleEndian, &write_result_header)
	if err != nil {''','''	if err := binary.Read(data, binary.LittleEndian, &write_result_header); err != nil {
		client.Logger.Warn("short reply", "error", err)
	}
	if err != nil {'''))
bad('c28-return-outer','C28',('items.go','''		err := binary.Read(r, binary.LittleEndian, &(items[i].Header))
		if err != nil {
			return''','''		if err := binary.Read(r, binary.LittleEndian, &(items[i].Header)); err != nil {
			break
		}
		if err != nil {
			return'''))
bad('c28-skip-continue','C28',('read.go','''			err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
		if err != nil {''','''			err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
		if err != nil {''') if False else ('read.go','''		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
		if err != nil {
''','''		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
		if err != nil {
			continue
'''))
bad('c28-atoi','C28',('ioi.go','''			bit_access, err := strconv.Atoi(tag_part)
			if err == nil {''','''			bit_access, _ := strconv.Atoi(tag_part)
			if bit_access > 0 {'''))
ok('c28-helper',('items.go','''			if err != nil {
				return fmt.Errorf("problem writing serializable item: %v", err)
			}''','''			if werr := serErr(err); werr != nil {
				return werr
			}'''),('items.go','''// Serialize a structure into''','''func serErr(err error) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("problem writing serializable item: %v", err)
}

// Serialize a structure into'''))
ok('c28-switch',('listsubtags.go','''		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
		if err != nil {
			return''','''		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
		switch {
		case err == nil:
		default:
			return'''))
ok('c28-named',('items.go','''func (item *CIPItem) DeSerialize(str any) error {
	return binary.Read(item, binary.LittleEndian, str)''','''func (item *CIPItem) DeSerialize(str any) (err error) {
	defer func() {
		if err != nil {
			err = fmt.Errorf("problem decoding: %w", err)
		}
	}()
	err = binary.Read(item, binary.LittleEndian, str)
	return'''))

bad('c31-swap','C31',('device_type.go','0x02: "AC Drive",\n','0x02: "Motor Overload",\n'),('device_type.go','0x03: "Motor Overload",\n','0x03: "AC Drive",\n'))
bad('c31-status','C31',('cip_definitions.go','return "PartialTransfer"','return "ConnectionLost"'))
bad('c31-service','C31',('services.go','case CIPService_FragWrite:\n\t\treturn "cipService_FragWrite"','case CIPService_FragWrite:\n\t\treturn "cipService_FragRead"'))
bad('c31-fault-key','C31',('canned/faults.go','t[int(f.FaultCode)]','t[int(f.FaultClass)]'))
bad('c31-bit','C31',('canned/faults.go','return f&FaultType_Ethernet != 0','return f&FaultType_CIPMotion != 0'))
bad('c31-const','C31',('services.go','CIPService_GetMember              CIPService = 0x18','CIPService_GetMember              CIPService = 0x19'),('services.go','CIPService_SetMember              CIPService = 0x19','CIPService_SetMember              CIPService = 0x18'))
bad('c31-mask-lost','C31',('canned/faults.go','	_                                              // 15\n','	// 15 is unused\n'))
ok('c31-name-default',('vendors.go','''	if name, ok := cipVendorNames[v]; ok {
		return name
	}

	return "Reserved"''','''	name, ok := cipVendorNames[v]
	if !ok {
		name = "Reserved"
	}
	return name'''))
ok('c31-has',('canned/faults.go','''func (f FaultType) PowerupFault() bool {
	return f&FaultType_Powerup != 0
}''','''func (f FaultType) has(bit FaultType) bool { return f&bit == bit }

func (f FaultType) PowerupFault() bool {
	return f.has(FaultType_Powerup)
}'''))
ok('c31-typo',('vendors.go','"Molex Incorporated"','"Molex Inc."'))
bad('c17-size','C17',('types.go','case CIPTypeWORD:\n\t\treturn 2','case CIPTypeWORD:\n\t\treturn 4'))
bad('c17-decode','C17',('types.go','	case CIPTypeUINT:\n		var trueval uint16','	case CIPTypeUINT:\n		var trueval int16'))
bad('c17-decode-drop','C17',('types.go','	case CIPTypeDWORD:\n		var trueval uint32\n		err = binary.Read(r, binary.LittleEndian, &trueval)\n		value = trueval','	case CIPTypeDWORD:\n		var trueval uint32\n		err = binary.Read(r, binary.LittleEndian, &trueval)\n		value = int32(trueval)'))
bad('c17-bit','C17',('types.go','	case CIPTypeLINT:\n		if bitpos >= 0 && bitpos < 64 {','	case CIPTypeLINT:\n		if bitpos >= 0 && bitpos < 63 {'))
bad('c17-goty','C17',('types.go','case uint16, *uint16:\n\t\treturn CIPTypeUINT, 1','case uint16, *uint16:\n\t\treturn CIPTypeINT, 1'))
bad('c17-count','C17',('types.go','case []int64:\n\t\treturn CIPTypeLINT, len(x)','case []int64:\n\t\treturn CIPTypeLINT, 1'))
bad('c17-zero','C17',('taggroup.go','case CIPTypeUINT, CIPTypeWORD:\n\t\treturn uint16(0)','case CIPTypeUINT:\n\t\treturn uint16(0)'))
bad('c17-dts','C17',('datatable.go','	case CIPTypeStruct:\n		return 88, nil\n	default:','	case CIPTypeStruct, CIPTypeLWORD:\n		return 88, nil\n	default:'))
ok('c17-generic',('types.go','''	case CIPTypeUINT:
		var trueval uint16
		err = binary.Read(r, binary.LittleEndian, &trueval)
		value = trueval''','''	case CIPTypeUINT:
		value, err = readAs[uint16](r)'''),('types.go','''// after reading a value v from''','''func readAs[T any](r io.Reader) (any, error) {
	var v T
	err := binary.Read(r, binary.LittleEndian, &v)
	return v, err
}

// after reading a value v from'''))
ok('c17-table',('types.go','''// return a buffer that can hold''','''var bitWidths = map[CIPType]int{CIPTypeBYTE: 8, CIPTypeSINT: 8}

// return a buffer that can hold'''),('types.go','''	case CIPTypeBYTE:
		if bitpos >= 0 && bitpos < 8 {''','''	case CIPTypeBYTE:
		if bitpos >= 0 && bitpos < bitWidths[t] {'''))
bad('c16-len','C16',('cip_definitions.go','''func (p CIPInstance) Len() int {
	if p < 256 {
		return 2
	} else if p <= 0xFFFF {''','''func (p CIPInstance) Len() int {
	if p < 256 {
		return 2
	} else if p < 0xFFFF {'''))
bad('c16-enc','C16',('cip_definitions.go','''	if p < 256 {
		b := make([]byte, 2)
		b[0] = byte(cipAttribute_8bit)''','''	if p <= 256 {
		b := make([]byte, 2)
		b[0] = byte(cipAttribute_8bit)'''))
bad('c16-cut','C16',('cip_definitions.go','''		b[0] = byte(cipElement_32bit)
		binary.LittleEndian.PutUint32(b[2:], uint32(p))''','''		b[0] = byte(cipElement_32bit)
		binary.LittleEndian.PutUint16(b[2:], uint16(p))'''))
bad('c16-read','C16',('cip_definitions.go','''	case cipInstance_32bit:
		_, err = io.CopyN(io.Discard, r, 1) // skip the padding byte''','''	case cipInstance_32bit:
		_, err = io.CopyN(io.Discard, r, 2) // skip the padding byte'''))
bad('c16-read-sel','C16',('cip_definitions.go','''	cipClass_16bit cipClassSize = 0x21
''','''	cipClass_16bit cipClassSize = 0x21
	cipClass_16bitx cipClassSize = 0x22
'''),('cip_definitions.go','	case cipClass_16bit:\n		_, err','	case cipClass_16bit, cipClass_16bitx:\n		_, err'))
bad('c16-ioi','C16',('ioi.go','} else if order_size < 65536 {','} else if order_size <= 65536 {'))
bad('c16-ioi2','C16',('ioi.go','index_part1 := []uint32{uint32(order_size)}','index_part1 := []uint16{uint16(order_size)}'))
bad('c16-pad','C16',('ioi.go','if tag_size%2 == 1 {','if tag_size%2 == 1 && tag_size > 1 {'))
bad('c16-dec','C16',('ioi.go','		case 0x2A:\n			// four byte index\n			var pad byte\n			err = item.DeSerialize(&pad)','		case 0x2A:\n			// four byte index\n			var pad uint16\n			err = item.DeSerialize(&pad)'))
bad('c16-dec2','C16',('ioi.go','	if tag_len%2 == 1 {\n		var pad byte','	if tag_len%2 == 1 && tag_len > 2 {\n		var pad byte'))
bad('c16-port','C16',('path.go','	return len(p.Bytes())','	return 2'))
bad('c16-footer','C16',('messages.go','	if ftr.DataType == uint16(CIPTypeSTRING) {\n		return 6','	if ftr.DataType == uint16(CIPTypeStruct) {\n		return 6'))
bad('c16-builder','C16',('path.go','_, err := pb.b.Write(elementID.Bytes())','_, err := pb.b.Write(CIPElement(uint16(elementID)).Bytes())'))
bad('c16-dt','C16',('datatable.go','binary.LittleEndian.PutUint16(path[4:], instanceID)','path[4] = byte(instanceID)'))
ok('c16-shift',('cip_definitions.go','''		b := make([]byte, 4)
		b[0] = byte(cipElement_16bit)
		binary.LittleEndian.PutUint16(b[2:], uint16(p))
		return b''','''		return []byte{byte(cipElement_16bit), 0, byte(p), byte(p >> 8)}'''))
ok('c16-append',('cip_definitions.go','''	b := make([]byte, 6)
	b[0] = byte(cipInstance_32bit)
	binary.LittleEndian.PutUint32(b[2:], uint32(p))
	return b''','''	return binary.LittleEndian.AppendUint32([]byte{byte(cipInstance_32bit), 0}, uint32(p))'''))
ok('c16-lenbytes',('cip_definitions.go','''func (p CIPElement) Len() int {
	if p < 256 {
		return 2
	} else if p < 65536 {
		return 4
	}
	return 6
}''','''func (p CIPElement) Len() int {
	n := 2
	if p > 255 {
		n += 2
	}
	if p > 65535 {
		n += 2
	}
	return n
}'''))
ok('c16-element-reuse',('ioi.go','''				if order_size < 256 {
					// byte, byte
					index_part := []byte{byte(cipElement_8bit), byte(order_size)}
					err = binary.Write(ioi, binary.LittleEndian, index_part)
					if err != nil {
						return nil, fmt.Errorf("problem reading index part. %w", err)
					}
				} else if order_size < 65536 {
					// uint16, uint16
					index_part := []uint16{uint16(cipElement_16bit), uint16(order_size)}
					err = binary.Write(ioi, binary.LittleEndian, index_part)
					if err != nil {
						return nil, fmt.Errorf("problem reading index part. %w", err)
					}
				} else if int64(order_size) > math.MaxUint32 {
					return nil, fmt.Errorf("array index %d is too big in %s", order_size, tagpath)
				} else {
					// uint16, uint32
					index_part0 := []uint16{uint16(cipElement_32bit)}
					err = binary.Write(ioi, binary.LittleEndian, index_part0)
					if err != nil {
						return nil, err
					}
					index_part1 := []uint32{uint32(order_size)}
					err = binary.Write(ioi, binary.LittleEndian, index_part1)
					if err != nil {
						return nil, err
					}
				}''','''				if order_size < 0 || int64(order_size) > math.MaxUint32 {
					return nil, fmt.Errorf("array index %d is too big in %s", order_size, tagpath)
				}
				ioi.Buffer = append(ioi.Buffer, CIPElement(order_size).Bytes()...)'''),('ioi.go','type tagPartDescriptor struct','var _ = binary.LittleEndian\n\ntype tagPartDescriptor struct'))
ok('c16-marshal',('ioi.go','''	tag_name_header := [2]byte{byte(segmentTypeExtendedSymbolic), byte(tag_size)}
	tag_name_msg := append(tag_name_header[:], []byte(t.BasePath)...)
	// has to be an even number of bytes.
	if need_extend {
		tag_name_msg = append(tag_name_msg, []byte{0x00}...)
	}
	return tag_name_msg, nil''','''	out := make([]byte, 0, tag_size+3)
	out = append(out, byte(segmentTypeExtendedSymbolic), byte(tag_size))
	out = append(out, t.BasePath...)
	if need_extend {
		out = append(out, 0)
	}
	return out, nil'''))
ok('c16-readbuf',('cip_definitions.go','''		var val uint16
		err = binary.Read(r, binary.LittleEndian, &val)
		if err != nil {
			return fmt.Errorf("error reading 16 bit instance: %w", err)
		}
		*p = CIPInstance(val)''','''		var val [2]byte
		_, err = io.ReadFull(r, val[:])
		if err != nil {
			return fmt.Errorf("error reading 16 bit instance: %w", err)
		}
		*p = CIPInstance(binary.LittleEndian.Uint16(val[:]))'''))
ok('c16-decfn',('ioi.go','''			var array_index byte
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
			if strings.HasSuffix(tag_str, "]") {
				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
			} else {
				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
			}''','''			var array_index byte
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
			tag_str = withIndex(tag_str, uint32(array_index))'''),('ioi.go','func getTagFromPath(','''func withIndex(tag_str string, n uint32) string {
	if strings.HasSuffix(tag_str, "]") {
		return tag_str[:len(tag_str)-1] + "," + strconv.Itoa(int(n)) + "]"
	}
	return tag_str + "[" + strconv.Itoa(int(n)) + "]"
}

func getTagFromPath('''))
bad('c18-bit','C18',('lgxtypes/control.go','	if t.UL {\n		CtrlWord |= 1 << 26','	if t.UL {\n		CtrlWord |= 1 << 25'))
bad('c18-bit2','C18',('lgxtypes/control.go','t.ER = CtrlWord&(1<<27) != 0','t.ER = CtrlWord&(1<<26) != 0'))
bad('c18-both','C18',('lgxtypes/counter.go','	if t.OV {\n		CtrlWord |= 1 << 28\n	}\n	if t.UN {\n		CtrlWord |= 1 << 27','	if t.OV {\n		CtrlWord |= 1 << 27\n	}\n	if t.UN {\n		CtrlWord |= 1 << 28'),('lgxtypes/counter.go','	t.OV = CtrlWord&(1<<28) != 0\n	t.UN = CtrlWord&(1<<27) != 0','	t.OV = CtrlWord&(1<<27) != 0\n	t.UN = CtrlWord&(1<<28) != 0'))
bad('c18-order','C18',('lgxtypes/timer.go','''	err = binary.Write(w, binary.LittleEndian, t.PRE)
	if err != nil {
		return 4, err
	}
	err = binary.Write(w, binary.LittleEndian, t.ACC)''','''	err = binary.Write(w, binary.LittleEndian, t.ACC)
	if err != nil {
		return 4, err
	}
	err = binary.Write(w, binary.LittleEndian, t.PRE)'''))
bad('c18-sticky','C18',('lgxtypes/timer.go','	t.TT = CtrlWord&(1<<30) != 0','	t.TT = t.TT || CtrlWord&(1<<30) != 0'))
bad('c18-count','C18',('lgxtypes/timer.go','	return 12, nil\n}\n\nfunc (t *TIMER)','	return 8, nil\n}\n\nfunc (t *TIMER)'))
bad('c18-handle','C18',('lgxtypes/control.go','0x0F81','0x0F82'))
bad('c18-footer','C18',('messages.go','0xA0, 0x02, 0xCE, 0x0F','0xA0, 0x02, 0xCF, 0x0F'))
bad('c18-crc','C18',('server_connected.go','cipStringStructCRC uint16 = 0x0FCE','cipStringStructCRC uint16 = 0x0FCF'))
bad('c18-string','C18',('lgxtypes/string.go','Data [82]int8','Data [84]int8'))
bad('c18-spare','C18',('lgxtypes/timer.go','	t.DN = CtrlWord&(1<<29) != 0\n','	t.DN = CtrlWord&(1<<29) != 0\n	t.FS = CtrlWord&(1<<28) != 0\n'))
ok('c18-spare-both',('lgxtypes/timer.go','	t.DN = CtrlWord&(1<<29) != 0\n','	t.DN = CtrlWord&(1<<29) != 0\n	t.FS = CtrlWord&(1<<28) != 0\n'),('lgxtypes/timer.go','''		CtrlWord |= 1 << 29
	}
''','''		CtrlWord |= 1 << 29
	}
	if t.FS {
		CtrlWord |= 1 << 28
	}
'''))
ok('c18-onebuf',('lgxtypes/counter.go','''	err := binary.Write(w, binary.LittleEndian, CtrlWord)
	if err != nil {
		return 0, err
	}

	err = binary.Write(w, binary.LittleEndian, t.PRE)
	if err != nil {
		return 4, err
	}
	err = binary.Write(w, binary.LittleEndian, t.ACC)
	if err != nil {
		return 8, err
	}

	return 12, nil''','''	var b [12]byte
	binary.LittleEndian.PutUint32(b[0:], CtrlWord)
	binary.LittleEndian.PutUint32(b[4:], uint32(t.PRE))
	binary.LittleEndian.PutUint32(b[8:], uint32(t.ACC))
	return w.Write(b[:])'''),('lgxtypes/counter.go','''	var CtrlWord uint32
	err := binary.Read(r, binary.LittleEndian, &CtrlWord)
	if err != nil {
		return 0, err
	}
''','''	var b [12]byte
	if n, err := io.ReadFull(r, b[:]); err != nil {
		return n, err
	}
	CtrlWord := binary.LittleEndian.Uint32(b[:])
'''),('lgxtypes/counter.go','''	err = binary.Read(r, binary.LittleEndian, &(t.PRE))
	if err != nil {
		return 4, err
	}

	err = binary.Read(r, binary.LittleEndian, &(t.ACC))
	if err != nil {
		return 8, err
	}
''','''	t.PRE = int32(binary.LittleEndian.Uint32(b[4:]))
	t.ACC = int32(binary.LittleEndian.Uint32(b[8:]))
'''))
ok('c18-helper',('lgxtypes/control.go','''	if t.EN {
		CtrlWord |= 1 << 31
	}
	if t.EU {
		CtrlWord |= 1 << 30
	}''','''	setBit(&CtrlWord, 31, t.EN)
	setBit(&CtrlWord, 30, t.EU)'''),('lgxtypes/control.go','func (t CONTROL) Pack(','''func setBit(w *uint32, n int, b bool) {
	if b {
		*w |= 1 << n
	}
}

func (t CONTROL) Pack('''))
bad('c19-serialize','C19',('pack.go','			if strlen > 84 {\n				strlen = 84','			if strlen > 88 {\n				strlen = 88'))
bad('c19-item','C19',('items.go','''			b := make([]byte, 84)
			copy(b, x)''','''			b := make([]byte, 84)
			copy(b, x[:min(len(x), 82)])'''))
bad('c19-slice','C19',('items.go','				if strLen > 84 {\n					strLen = 84\n				}\n','				if strLen > 84 {\n					s = s[:84]\n				}\n'))
bad('c19-packer','C19',('server_connected.go','	copy(b[8:8+cipStringDataLen], c)','	copy(b[8:8+cipStringDataLen-2], c)'))
bad('c19-const','C19',('pack.go','strlen := uint32(len(serializable_str))','strlen := uint32(max(len(serializable_str), 1))'))
ok('c19-min',('pack.go','''			strlen := uint32(len(serializable_str))
			if strlen > 84 {
				strlen = 84
			}
''','''			strlen := uint32(min(len(serializable_str), 84))
'''))
ok('c19-cutfirst',('items.go','''				strLen := uint32(len(s))
				if strLen > 84 {
					strLen = 84
				}
				if err''','''				if len(s) > 84 {
					s = s[:84]
				}
				strLen := uint32(len(s))
				if err'''))
ok('c19-helper',('items.go','''			strLen := uint32(len(x))
			if strLen > 84 {
				strLen = 84
			}
			err := binary.Write(item, binary.LittleEndian, strLen)
			if err != nil {
				return fmt.Errorf("problem writing string header: %v", err)
			}
			b := make([]byte, 84)
			copy(b, x)
			err = binary.Write(item, binary.LittleEndian, b)
			if err != nil {
				return fmt.Errorf("problem writing string payload: %v", err)
			}
''','''			if err := item.writeString(x); err != nil {
				return err
			}
'''),('items.go','''// Serialize a structure into''','''func (item *CIPItem) writeString(s string) error {
	var slot struct {
		Len  uint32
		Data [84]byte
	}
	slot.Len = uint32(copy(slot.Data[:], s))
	return binary.Write(item, binary.LittleEndian, slot)
}

// Serialize a structure into'''))
# ---- C20
bad('c20-attrcount','C20',('getattr.go','	attrCount, err := wireLen16(len(attrs))','	attrCount := uint16(len(attrs))\n	err = nil'))
bad('c20-datatable-count','C20',('datatable.go','	count, err := wireLen8(len(entries))','	count, err := byte(len(entries)), error(nil)'))
bad('c20-wirelen8','C20',('items.go','n > math.MaxUint8','n > math.MaxUint16'))
bad('c20-wirelen-neg','C20',('items.go','	return wireLen8(len(path) / 2)','	return byte(len(path)) / 2, nil'))
bad('c20-jump','C20',('read.go','		jump_table[i], err = wireLen16(jump_start + b.Len())\n		if err != nil {\n			return nil, fmt.Errorf("too much to read at once. %w", err)\n		}\n','		jump_table[i], _ = wireLen16(jump_start + b.Len())\n'))
bad('c20-elements','C20',('read.go','tag.Elements < 0 || tag.Elements > math.MaxUint16','tag.Elements < 0 || tag.Elements > math.MaxUint32'))
bad('c20-conn-std','C20',('connect.go','	if client.ConnectionSize <= connSizeStandardMax {\n		item, err := client.newForwardOpenStandard()','	if client.ConnectionSize <= connSizeLargeDefault {\n		item, err := client.newForwardOpenStandard()'),('connect.go','	if client.ConnectionSize > connSizeStandardMax {\n		client.Logger.Warn(','	if client.ConnectionSize > connSizeLargeDefault {\n		client.Logger.Warn('))
bad('c20-multi-jump','C20',('server_connected.go','		if pos > math.MaxUint16 {','		if pos > math.MaxUint32 {'))
bad('c20-template','C20',('listmembers.go','template_bytes < 0 || template_bytes > math.MaxUint16','template_bytes < 0 || template_bytes > math.MaxUint32'))
bad('c20-udtsize','C20',('datatable.go','kt.UDT.Info.SizeBytes > math.MaxUint16','kt.UDT.Info.SizeBytes > math.MaxInt32'))
bad('c20-path255','C20',('path.go','len(part) > 255 {','len(part) > 256 {'))
bad('c20-name-cut','C20',('server_unconnected.go','''		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
		buf.WriteString(name)''','''		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
		buf.WriteString(tag.Name)'''))
bad('c20-identity-256','C20',('server_listidentity.go','''	if len(productName) > 255 {
		productName = productName[:255]
	}

''',''),('server_listidentity.go','''	if len(productName) > 255 {
		productName = productName[:255]
	}
	buf.WriteByte''','''	if len(productName) > 256 {
		productName = productName[:256]
	}
	buf.WriteByte'''))
ok('c20-itemcount',('items.go','	count, err := wireLen16(len(items))','	count, err := uint16(len(items)), error(nil)'))
bad('c20-write-full','C20',('items.go','''	length, err := wireLen16(len(item.Data) + len(p))
	if err != nil {
		return 0, fmt.Errorf("item is full: %w", err)
	}
	item.Data = append(item.Data, p...)
	n = len(p)
	item.Header.Length = length''','''	item.Data = append(item.Data, p...)
	n = len(p)
	item.Header.Length += uint16(n)'''))
bad('c20-mask','C20',('getattr.go','	attrCount, err := wireLen16(len(attrs))','	attrCount := uint16(len(attrs) & 0xFFFF)\n	err = nil'))
ok('c20-inline',('getattr.go','	attrCount, err := wireLen16(len(attrs))\n	if err != nil {','	attrCount := uint16(len(attrs))\n	if len(attrs) > 0xFFFF {\n		err = fmt.Errorf("too many")'))
ok('c20-min',('server_listidentity.go','''	if len(productName) > 255 {
		productName = productName[:255]
	}
	buf.WriteByte''','''	productName = productName[:min(len(productName), 255)]
	buf.WriteByte'''))
ok('c20-bytes',('server_unconnected.go','''		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
		buf.WriteString(name)''','''		n := len(name)
		buf.Write([]byte{byte(n), byte(n >> 8)})
		buf.WriteString(name)'''))
ok('c20-frame-helper',('server_listidentity.go','	buf.WriteByte(byte(len(productName)))\n	buf.WriteString(productName)','	writeShortString(&buf, productName)'),('server_listidentity.go','// sendListIdentityReply handles','''func writeShortString(b *bytes.Buffer, s string) {
	if len(s) > 255 {
		s = s[:255]
	}
	b.WriteByte(byte(len(s)))
	b.WriteString(s)
}

// sendListIdentityReply handles'''))
ok('c20-size-calc',('getattr.go','	attrCount, err := wireLen16(len(attrs))','	n := 0\n	for range attrs {\n		n++\n	}\n	attrCount, err := wireLen16(n)'))
# ---- C34
bad('c34-program-name','C34',('listallprograms.go','''		if int64(hdr.NameLen) > int64(len(resp.Data)-resp.Pos) {
			return fmt.Errorf("program name length %d is more than the reply holds", hdr.NameLen)
		}
''',''))
bad('c34-string-1','C34',('read.go','''				if int64(str_hdr.Length) > int64(len(items[1].Data)-items[1].Pos) {
					return nil, fmt.Errorf("string length %d is more than the reply holds", str_hdr.Length)
				}
''',''))
bad('c34-string-2','C34',('read.go','''				if int64(str_hdr.Length) > int64(myBytes.Len()) {''','''				if myBytes.Len() == 0 {'''))
bad('c34-template','C34',('listmembers.go','make([]msgMemberInfo, template_info.MemberCount)','make([]msgMemberInfo, template_info.SizeBytes)'))
bad('c34-grow','C34',('listmembers.go','	descriptor := UDTDescriptor{}\n	descriptor.Info','	data2.Grow(int(template_info.SizeBytes))\n	descriptor := UDTDescriptor{}\n	descriptor.Info'))
bad('c34-append-loop','C34',('listmembers.go','	descriptor.Members = make([]UDTMemberDescriptor, template_info.MemberCount)','	for uint32(len(descriptor.Members)) < max(template_info.SizeBytes, uint32(template_info.MemberCount)) {\n		descriptor.Members = append(descriptor.Members, UDTMemberDescriptor{})\n	}'))
bad('c34-string-sub','C34',('read.go','''				if int64(str_hdr.Length) > int64(len(items[1].Data)-items[1].Pos) {''','''				if int64(str_hdr.Length) < int64(len(items[1].Data)-items[1].Pos) {'''))
ok('c34-cap',('listallprograms.go','''		if int64(hdr.NameLen) > int64(len(resp.Data)-resp.Pos) {''','''		if hdr.NameLen > 4096 {'''))
ok('c34-min',('read.go','''				str := make([]byte, str_hdr.Length)
				err = items[1].DeSerialize(&str)''','''				n := min(int(str_hdr.Length), len(items[1].Data)-items[1].Pos)
				str := make([]byte, n)
				err = items[1].DeSerialize(&str)'''))
bad('c34-down','C34',('listmembers.go','	descriptor.Members = make([]UDTMemberDescriptor, template_info.MemberCount)','	for n := int64(template_info.SizeBytes) + int64(template_info.MemberCount); n > 0; n-- {\n		descriptor.Members = append(descriptor.Members, UDTMemberDescriptor{})\n	}'))
ok('c34-helper',('listallprograms.go','''		if int64(hdr.NameLen) > int64(len(resp.Data)-resp.Pos) {''','''		if !holds(resp, hdr.NameLen) {'''),('listallprograms.go','func (client *Client) ListAllPrograms','''func holds(it *CIPItem, n uint32) bool { return int64(n) <= int64(len(it.Data)-it.Pos) }

func (client *Client) ListAllPrograms'''))
# ---- C08
bad('c08-frag-empty','C08',('read.go','''		if len(fragData) == 0 {
			return nil, fmt.Errorf("FragRead at offset %d returned no data", offset)
		}
''',''))
bad('c08-frag-fixed-offset','C08',('read.go','''	for {
		offset := uint32(accumulated.Len())
''','''	offset := uint32(accumulated.Len())
	for {
'''))
bad('c08-frag-ignored-offset','C08',('read.go','reqItems[1].Serialize(ioi, elements, offset)','reqItems[1].Serialize(ioi, elements, uint32(0))'))
bad('c08-tags-same-instance','C08',('listalltags.go','		if next_instance <= start_instance {','		if next_instance < start_instance {'))
bad('c08-tags-noguard','C08',('listsubtags.go','''		if next_instance <= start_instance {
			return new_kts, fmt.Errorf("no new tags in partial response from instance %d", start_instance)
		}
''',''))
bad('c08-tags-arg','C08',('listsubtags.go','client.ListSubTags(Program, next_instance)','client.ListSubTags(Program, start_instance)'))
bad('c08-tags-fixed','C08',('listsubtags.go','CipObject_Symbol, CIPInstance(start_instance)','CipObject_Symbol, CIPInstance(1)'))
bad('c08-first-too-big','C08',('read.go','''			if i == 0 {
				return nil, fmt.Errorf("read of %s does not fit in the connection size %d", tags[i].TagName, client.ConnectionSize)
			}
''',''))
bad('c08-none-fit','C08',('partialread.go','	n := 1\n','	n := 0\n'))
bad('c08-advance-results','C08',('partialread.go','		n += n_new\n','		n += len(subresults)\n'))
bad('c08-template-cycle','C08',('listmembers.go','parents = append(slices.Clone(parents), str_instance)','parents = slices.Clone(parents)'))
bad('c08-template-nocheck','C08',('listmembers.go','	if slices.Contains(parents, str_instance) {','	if slices.Contains(parents, 0) {'))
bad('c08-retry','C08',('read.go','''		if err != nil {
			return nil, err
		}
		accumulated.Write(fragData)''','''		if err != nil {
			if offset > 0 && client.Connected() {
				continue
			}
			return nil, err
		}
		accumulated.Write(fragData)'''))
ok('c08-frag-slice',('read.go','''	accumulated := bytes.NewBuffer(append([]byte(nil), initialData...))
	for {
		offset := uint32(accumulated.Len())''','''	accumulated := append([]byte(nil), initialData...)
	for {
		offset := uint32(len(accumulated))'''),('read.go','''		accumulated.Write(fragData)
		if status == 0 {
			return accumulated.Bytes(), nil''','''		accumulated = append(accumulated, fragData...)
		if status == 0 {
			return accumulated, nil'''))
ok('c08-frag-offset-counted',('read.go','''	for {
		offset := uint32(accumulated.Len())''','''	for offset := uint32(len(initialData)); ; offset = uint32(accumulated.Len()) {'''))
ok('c08-frag-order',('read.go','''		if len(fragData) == 0 {
			return nil, fmt.Errorf("FragRead at offset %d returned no data", offset)
		}
''',''),('read.go','''		accumulated.Write(fragData)
		if status == 0 {''','''		if _, err = accumulated.Write(fragData); err != nil {
			return nil, err
		}
		if status == byte(CIPStatus_PartialTransfer) && len(fragData) < 1 {
			return nil, fmt.Errorf("FragRead at offset %d returned no data", offset)
		}
		if status == 0 {'''))
ok('c08-readlist-slices',('partialread.go','''	for n < total {
		msgs += 1
		n_new, err = client.countIOIsThatFit(tags[n:])
		if err != nil {
			return nil, err
		}
		subresults, err := client.readList(tags[n : n+n_new])
		n += n_new
''','''	for rest := tags; len(rest) > 0; rest = rest[n_new:] {
		msgs += 1
		n_new, err = client.countIOIsThatFit(rest)
		if err != nil {
			return nil, err
		}
		subresults, err := client.readList(rest[:n_new])
		n += n_new
'''))
ok('c08-subtags-guard',('listsubtags.go','''		next_instance := last_instance + 1
		if next_instance <= start_instance {''','''		next_instance := last_instance + 1
		if !(start_instance < next_instance) {'''))
ok('c08-subtags-guard2',('listsubtags.go','''		if next_instance <= start_instance {
			return''','''		if last_instance < start_instance || next_instance == 0 {
			return'''))
ok('c08-parents-loop',('listmembers.go','''	if slices.Contains(parents, str_instance) {
		return UDTDescriptor{}, fmt.Errorf("template %d contains itself", str_instance)
	}
	parents = append(slices.Clone(parents), str_instance)
''','''	stack := make([]uint32, 0, len(parents)+1)
	for _, p := range parents {
		if p == str_instance {
			return UDTDescriptor{}, fmt.Errorf("template %d contains itself", str_instance)
		}
		stack = append(stack, p)
	}
	parents = append(stack, str_instance)
'''),('listmembers.go','	"slices"\n',''))
ok('c08-parents-helper',('listmembers.go','	if slices.Contains(parents, str_instance) {','	if listed(parents, str_instance) {'),('listmembers.go','func (client *Client) ListMembers(','''func listed(l []uint32, x uint32) bool {
	for i := range l {
		if l[i] == x {
			return true
		}
	}
	return false
}

func (client *Client) ListMembers('''),('listmembers.go','	"slices"\n',''),('listmembers.go','slices.Clone(parents)','parents[:len(parents):len(parents)]'))
bad('c20-check-break','C20',('read.go','''			return nil, fmt.Errorf("can't read %d elements of %s", tag.Elements, tag.TagName)
		}
		var err error
''','''			client.Logger.Debug("bad element count", "tag", tag.TagName)
			break
		}
		var err error
'''))
ok('c13-check-helper',('read.go','''		if tag.Elements < 0 || tag.Elements > math.MaxUint16 {
			return nil, fmt.Errorf("can't read %d elements of %s", tag.Elements, tag.TagName)
		}
		var err error
''','''		var err error
'''),('read.go','''	qty := len(tags)
	iois := make([]*tagIOI, qty)
	for i, tag''','''	if err := checkElements(tags); err != nil {
		return nil, err
	}
	qty := len(tags)
	iois := make([]*tagIOI, qty)
	for i, tag'''),('read.go','''func (client *Client) readList(''','''func checkElements(tags []tagDesc) error {
	for _, tag := range tags {
		if tag.Elements < 0 || tag.Elements > math.MaxUint16 {
			return fmt.Errorf("can't read %d elements of %s", tag.Elements, tag.TagName)
		}
	}
	return nil
}

func (client *Client) readList('''))

# --- C29
D='datatable.go'
bad('c29-batch-early','C29',(D,'''	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
	if err != nil {
		return fmt.Errorf("could not add tags to buffer: %w", err)
	}
''','''	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
	buf.synched = true
	if err != nil {
		return fmt.Errorf("could not add tags to buffer: %w", err)
	}
'''))
bad('c29-mark-first','C29',(D,'''		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi})
''','''		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi})
		buf.tags[i].synched = true
'''))
bad('c29-ref-no-pending','C29',(D,'''	index, err := buf.nextIndex()
	if err != nil {
		return fmt.Errorf("tag %q: %w", tagName, err)
	}

	buf.synched = false

	buf.tags = append(buf.tags, DataTableBufferTag{
		Name:         tagName,
		CIPType:      cipType,
		DataTypeSize: typeSize,
		index:        index,
		ioi:          ioi.Bytes(),
		batchID:      0,
		synched:      false,
		Var: ''','''	index, err := buf.nextIndex()
	if err != nil {
		return fmt.Errorf("tag %q: %w", tagName, err)
	}

	buf.synched = len(buf.tags) > 0 && buf.synched

	buf.tags = append(buf.tags, DataTableBufferTag{
		Name:         tagName,
		CIPType:      cipType,
		DataTypeSize: typeSize,
		index:        index,
		ioi:          ioi.Bytes(),
		batchID:      0,
		synched:      false,
		Var: '''))
bad('c29-raw-nosync','C29',(D,'''func (buf *DataTableBuffer) ReadAllRaw() (map[string][]byte, error) {
	if !buf.created {
		return nil, fmt.Errorf("datatable buffer not created")
	}
	if len(buf.tags) == 0 {
		return nil, fmt.Errorf("no tags in datatable buffer")
	}

	if !buf.synched {
		err := buf.SyncTags()
		if err != nil {
			return nil, fmt.Errorf("could not sync tags before read: %w", err)
		}
	}
''','''func (buf *DataTableBuffer) ReadAllRaw() (map[string][]byte, error) {
	if !buf.created {
		return nil, fmt.Errorf("datatable buffer not created")
	}
	if len(buf.tags) == 0 {
		return nil, fmt.Errorf("no tags in datatable buffer")
	}

	if !buf.synched {
		err := buf.SyncTags()
		if err != nil {
			buf.client.Logger.Warn("could not sync tags before read", "err", err)
		}
	}
'''))
bad('c29-close-retry','C29',(D,'''	err := buf.client.DeleteDataTableBuffer(buf.instanceID)
	buf.created = false
	if err != nil {
		return fmt.Errorf("could not delete datatable buffer: %w", err)
	}
	return nil
''','''	err := buf.client.DeleteDataTableBuffer(buf.instanceID)
	if err != nil {
		return fmt.Errorf("could not delete datatable buffer: %w", err)
	}
	buf.created = false
	return nil
'''))
bad('c29-remove-guard','C29',(D,'''func (buf *DataTableBuffer) RemoveTag(tagName string) error {
	if !buf.created {
		return fmt.Errorf("datatable buffer not created")
	}
''','''func (buf *DataTableBuffer) RemoveTag(tagName string) error {
	if len(buf.tags) == 0 {
		return fmt.Errorf("no tags in datatable buffer")
	}
'''))
bad('c29-remove-anyway','C29',(D,'''		if err != nil {
			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
		}
	}
''','''		if err != nil {
			defer buf.client.Logger.Warn("could not remove tag from buffer", "tag", tagName, "err", err)
		}
	}
'''))
bad('c29-remove-index','C29',(D,'''buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)''','''buf.client.DataTableRemoveTag(buf.instanceID, uint16(idx+1))'''))
bad('c29-remove-synch-buf','C29',(D,'''	if buf.tags[idx].synched {
		err := buf''','''	if buf.synched {
		err := buf'''))
bad('c29-header','C29',(D,'''				return nil, fmt.Errorf("could not read batch header before tag %q: %w", tag.Name, err)
			}
			currentBatch = tag.batchID
		}

		if resp.Pos''','''				return nil, fmt.Errorf("could not read batch header before tag %q: %w", tag.Name, err)
			}
			currentBatch++
		}

		if resp.Pos'''))
bad('c29-header-once','C29',(D,'''		if tag.batchID != currentBatch {
			if _, err := resp.Uint16(); err != nil {
				return nil, fmt.Errorf("could not read batch header before tag %q: %w", tag.Name, err)
			}
			currentBatch = tag.batchID
		}

		if resp.Pos''','''		if tag.batchID != currentBatch && currentBatch == 0 {
			if _, err := resp.Uint16(); err != nil {
				return nil, fmt.Errorf("could not read batch header before tag %q: %w", tag.Name, err)
			}
			currentBatch = tag.batchID
		}

		if resp.Pos'''))
bad('c29-skip-empty','C29',(D,'''		raw := make([]byte, tag.DataTypeSize)
		copy(raw, resp.Data[resp.Pos:resp.Pos+int(tag.DataTypeSize)])
		resp.Pos += int(tag.DataTypeSize)
		result[tag.Name] = raw
''','''		if _, dup := result[tag.Name]; dup {
			continue
		}
		raw := make([]byte, tag.DataTypeSize)
		copy(raw, resp.Data[resp.Pos:resp.Pos+int(tag.DataTypeSize)])
		resp.Pos += int(tag.DataTypeSize)
		result[tag.Name] = raw
'''))
bad('c29-cap','C29',(D,'''		if buf.tags[i].synched {
			continue
		}
		entries''','''		if buf.tags[i].synched {
			continue
		}
		if len(entries) == math.MaxUint8 {
			break
		}
		entries'''))
bad('c29-ioi-empty','C29',(D,'''		if buf.tags[i].synched {
			continue
		}
		entries''','''		if buf.tags[i].synched || len(buf.tags[i].ioi) == 0 {
			continue
		}
		entries'''))
bad('c29-sort-name','C29',(D,'''		return sorted[i].index < sorted[j].index
	})

	result := make(map[string][]byte''','''		return sorted[i].Name < sorted[j].Name
	})

	result := make(map[string][]byte'''))
bad('c29-created-err','C29',(D,'''	instanceID, err := client.CreateDataTableBuffer()
	if err != nil {
		return nil, err
	}
	return &DataTableBuffer{''','''	instanceID, err := client.CreateDataTableBuffer()
	return &DataTableBuffer{'''),(D,'''		expansions: make(map[string][]string),
	}, nil''','''		expansions: make(map[string][]string),
	}, err'''))
bad('c29-read-first','C29',(D,'''	if len(entries) == 0 {
		buf.synched = true
		return nil
	}
''','''	buf.synched = true
	if len(entries) == 0 {
		return nil
	}
'''))
ok('c29-helper-sync',(D,'''	if !buf.synched {
		err := buf.SyncTags()
		if err != nil {
			return nil, fmt.Errorf("could not sync tags before read: %w", err)
		}
	}

	resp, err := buf.client.DataTableReadBuffer(buf.instanceID)
	if err != nil {
		return nil, err
	}

	// Sort''','''	resp, err := buf.fetch()
	if err != nil {
		return nil, err
	}

	// Sort'''),(D,'''	if !buf.synched {
		err := buf.SyncTags()
		if err != nil {
			return nil, fmt.Errorf("could not sync tags before read: %w", err)
		}
	}

	resp, err := buf.client.DataTableReadBuffer(buf.instanceID)
	if err != nil {
		return nil, err
	}

	sorted''','''	resp, err := buf.fetch()
	if err != nil {
		return nil, err
	}

	sorted'''),(D,'''func setGoVar(''','''func (buf *DataTableBuffer) fetch() (*CIPItem, error) {
	if !buf.synched {
		if err := buf.SyncTags(); err != nil {
			return nil, fmt.Errorf("could not sync tags before read: %w", err)
		}
	}
	return buf.client.DataTableReadBuffer(buf.instanceID)
}

func setGoVar('''))
ok('c29-collect-if',(D,'''		if buf.tags[i].synched {
			continue
		}
		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi})
''','''		if t := &buf.tags[i]; !t.synched {
			entries = append(entries, addTagEntry{dataTypeSize: t.DataTypeSize, ioi: t.ioi})
		}
'''))
ok('c29-sync-guard',(D,'''	if len(entries) == 0 {
		buf.synched = true
		return nil
	}

	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
	if err != nil {
		return fmt.Errorf("could not add tags to buffer: %w", err)
	}
	for i := range buf.tags {
		if !buf.tags[i].synched {
			buf.tags[i].batchID = batchID
			buf.tags[i].synched = true
		}
	}
	buf.synched = true
''','''	if len(entries) > 0 {
		batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
		if err != nil {
			return fmt.Errorf("could not add tags to buffer: %w", err)
		}
		for i := range buf.tags {
			t := &buf.tags[i]
			if t.synched {
				continue
			}
			t.synched, t.batchID = true, batchID
		}
	}
	buf.synched = true
'''))
ok('c29-append-helper',(D,'''	buf.synched = false

	buf.tags = append(buf.tags, DataTableBufferTag{
		Name:         tagName,
		CIPType:      cipType,
		DataTypeSize: typeSize,
		index:        index,
		ioi:          ioi.Bytes(),
		batchID:      0,
		synched:      false,
		Var:          data,
	})
''','''	buf.append(DataTableBufferTag{Name: tagName, CIPType: cipType, DataTypeSize: typeSize, index: index, ioi: ioi.Bytes(), Var: data})
'''),(D,'''	buf.synched = false

	buf.tags = append(buf.tags, DataTableBufferTag{
		Name:         tagName,
		CIPType:      cipType,
		DataTypeSize: typeSize,
		index:        index,
		ioi:          ioi.Bytes(),
		batchID:      0,
		synched:      false,
	})
''','''	buf.append(DataTableBufferTag{Name: tagName, CIPType: cipType, DataTypeSize: typeSize, index: index, ioi: ioi.Bytes()})
'''),(D,'''func setGoVar(''','''func (buf *DataTableBuffer) append(t DataTableBufferTag) {
	buf.tags = append(buf.tags, t)
	buf.synched = false
}

func setGoVar('''))
ok('c29-slot-helper',(D,'''		raw := make([]byte, tag.DataTypeSize)
		copy(raw, resp.Data[resp.Pos:resp.Pos+int(tag.DataTypeSize)])
		resp.Pos += int(tag.DataTypeSize)
		result[tag.Name] = raw
''','''		size := int(tag.DataTypeSize)
		end := resp.Pos + size
		raw := append([]byte(nil), resp.Data[resp.Pos:end]...)
		resp.Pos = end
		result[tag.Name] = raw
'''))
ok('c29-readfull',(D,'''		raw := make([]byte, tag.DataTypeSize)
		copy(raw, resp.Data[resp.Pos:resp.Pos+int(tag.DataTypeSize)])
		resp.Pos += int(tag.DataTypeSize)
		result[tag.Name] = raw
''','''		raw := make([]byte, tag.DataTypeSize)
		if _, err := io.ReadFull(resp, raw); err != nil {
			return nil, err
		}
		result[tag.Name] = raw
'''),(D,'''	"fmt"
''','''	"fmt"
	"io"
'''))
ok('c29-remove-delete',(D,'''	idx := -1
	for i, tag := range buf.tags {
		if tag.Name == tagName {
			idx = i
			break
		}
	}
	if idx''','''	idx := slices.IndexFunc(buf.tags, func(t DataTableBufferTag) bool { return t.Name == tagName })
	if idx'''),(D,'''	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
''','''	buf.tags = slices.Delete(buf.tags, idx, idx+1)
'''))
ok('c29-sorted-helper',(D,'''	sorted := make([]DataTableBufferTag, len(buf.tags))
	copy(sorted, buf.tags)
	sort.Slice(sorted, func(i, j int) bool {
		return sorted[i].index < sorted[j].index
	})

	result := make(map[string][]byte''','''	sorted := buf.Tags()
	slices.SortFunc(sorted, func(a, b DataTableBufferTag) int { return int(a.index) - int(b.index) })

	result := make(map[string][]byte'''))
ok('c29-close-order',(D,'''	err := buf.client.DeleteDataTableBuffer(buf.instanceID)
	buf.created = false
	if err''','''	buf.created = false
	err := buf.client.DeleteDataTableBuffer(buf.instanceID)
	if err'''))
ok('c29-ensure',(D,'''func (buf *DataTableBuffer) RemoveTag(tagName string) error {
	if !buf.created {
		return fmt.Errorf("datatable buffer not created")
	}
''','''func (buf *DataTableBuffer) RemoveTag(tagName string) error {
	if err := buf.usable(); err != nil {
		return err
	}
'''),(D,'''func setGoVar(''','''func (buf *DataTableBuffer) usable() error {
	if buf.created {
		return nil
	}
	return fmt.Errorf("datatable buffer not created")
}

func setGoVar('''))

# C30
R='read.go'; PR='partialread.go'; UW='udt_write.go'; SC='server_connected.go'
bad('c30-split-skip','C30',(R,'rest := tags[i:]','rest := tags[i+1:]'))
bad('c30-split-short','C30',(R,'first_part := tags[:i]','first_part := tags[:i-1]'))
bad('c30-split-swapped','C30',(R,'return append(results0, results1...), nil','return append(results1, results0...), nil'))
bad('c30-split-first','C30',(R,'return append(results0, results1...), nil','_ = results1\n\t\t\treturn results0, nil'))
bad('c30-count-less','C30',(R,'if int(reply_hdr.Reply_Count) != qty {','if int(reply_hdr.Reply_Count) > qty {'))
bad('c30-count-more','C30',(R,'if len(result_values) != len(fields) {','if len(result_values) < len(fields) {'),(R,'if int(reply_hdr.Reply_Count) != qty {','if int(reply_hdr.Reply_Count) < qty {'))
bad('c30-partial-skip','C30',(R,'''			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
''','''			client.Logger.Warn("problem reading", "tag", tags[i].TagName, "status", rHdr.Status)
			continue
'''))
bad('c30-partial-break','C30',(R,'''			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
''','''			client.Logger.Warn("problem reading", "tag", tags[i].TagName, "status", rHdr.Status)
			break
'''))
bad('c30-append-results','C30',(R,'result_values := make([]interface{}, reply_hdr.Reply_Count)','result_values := make([]interface{}, reply_hdr.Reply_Count)\n\tgot := 0'),
 (R,'''				result_values[i], err = rHdr.Type.readValue(myBytes)
				if err != nil {
					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
				}
''','''				result_values[got], err = rHdr.Type.readValue(myBytes)
				if err != nil {
					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
				}
				got++
'''))
bad('c30-map-order','C30',(R,'''	for i := range result_values {
		m[indexes[i]] = result_values[i]
	}
''','''	next := 0
	for k := range m {
		m[k] = result_values[next]
		next++
	}
'''),(R,'		indexes[i] = k\n',''),(R,'	indexes := make([]string, total)\n',''))
bad('c30-two-walks','C30',(R,'''		indexes[i] = k
		i++
	}
''','''		i++
	}
	i = 0
	for k := range m {
		indexes[i] = k
		i++
	}
'''))
bad('c30-chunk-late','C30',(R,'''		subResults, err := client.readList(tags[n : n+n_new])
		n += n_new
''','''		subResults, err := client.readList(tags[n : n+n_new])
		n += n_new + 1
'''))
bad('c30-chunk-prepend','C30',(PR,'results = append(results, subresults...)','results = append(subresults, results...)'))
bad('c30-chunk-stop','C30',(PR,'	for n < total {\n		msgs += 1','	for n < total-1 {\n		msgs += 1'))
bad('c30-fields-first','C30',(R,'''		v := fieldVal.Interface()
		t, elem := GoVarToCIPType(v)
		fields = append(fields, fieldVal)
''','''		fields = append(fields, fieldVal)
		v := fieldVal.Interface()
		t, elem := GoVarToCIPType(v)
		if t == CIPTypeUnknown {
			continue
		}
'''))
bad('c30-by-turn','C30',(R,'err = setFromResult(fieldVal, result_values[i])','err = setFromResult(val.Field(i), result_values[i])\n\t\t_ = fieldVal'))
bad('c30-prev-ioi','C30',(R,'val, err := getBit(rHdr.Type, value, iois[i].BitPosition)','val, err := getBit(rHdr.Type, value, iois[0].BitPosition)'))
bad('c30-type-of-first','C30',(R,'Elements: uint16(tags[i].Elements),','Elements: uint16(tags[qty-1].Elements),'))
bad('c30-jump-after','C30',(R,'''		jump_table[i], err = wireLen16(jump_start + b.Len())
		if err != nil {
			return nil, fmt.Errorf("too much to read at once. %w", err)
		}
''',''),(R,'''			return nil, fmt.Errorf("problem writing cip IO header to buffer. %w", err)
		}
		b.Write(ioi.Buffer)
''','''			return nil, fmt.Errorf("problem writing cip IO header to buffer. %w", err)
		}
		jump_table[i], err = wireLen16(jump_start + b.Len())
		if err != nil {
			return nil, fmt.Errorf("too much to read at once. %w", err)
		}
		b.Write(ioi.Buffer)
'''))
bad('c30-jump-start','C30',(UW,'jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry','jump_start := 4 + qty*2 // 2 bytes + 2 bytes per jump entry'))
bad('c30-sequential','C30',(R,'''	result_values := make([]interface{}, reply_hdr.Reply_Count)
	for i''','''	result_values := make([]interface{}, reply_hdr.Reply_Count)
	myBytes := bytes.NewBuffer(rb[10+2*qty:])
	for i'''),(R,'		myBytes := bytes.NewBuffer(rb[offset:])\n',''))
bad('c30-write-count','C30',(UW,'if int(reply_hdr.Reply_Count) != qty {','if int(reply_hdr.Reply_Count) == 0 && qty > 0 {'))
bad('c30-write-value','C30',(UW,'''	for i := 0; i < qty; i++ {
		ioi := iois[i]''','''	i := -1
	for _, value := range tag_str {
		i++
		ioi := iois[i]'''),(UW,'item_buf, err := Serialize(tag_str[tags[i]])','item_buf, err := Serialize(value)'))
bad('c30-write-two','C30',(UW,'''		types = append(types, ct)
		tags = append(tags, k)
	}
''','''		types = append(types, ct)
	}
	for k := range tag_str {
		tags = append(tags, k)
	}
'''))
bad('c30-write-extended','C30',(UW,'''			return fmt.Errorf("problem reading write result of %s. %w", tag, err)
		}
''','''			return fmt.Errorf("problem reading write result of %s. %w", tag, err)
		}
		if result.StatusExtended > 0 {
			var more uint16
			err = items[1].DeSerialize(&more)
			if err != nil {
				return fmt.Errorf("problem reading write result of %s. %w", tag, err)
			}
		}
'''))
bad('c30-server-sorted','C30',(SC,'''	for i := range results {
		response[2+i] = results[i]''','''	for i := range results {
		response[1+len(results)-i] = results[i]'''))
bad('c30-server-pos','C30',(SC,'		pos += len(results[i])','		pos += len(results[0])'))
bad('c30-server-pos0','C30',(SC,'	pos := (int(qty) + 1) * 2','	pos := int(qty) * 2'))
bad('c30-server-unset','C30',(SC,'''			results[i] = []byte{byte(svc.AsResponse()), 0x00, byte(CIPStatus_ServiceNotSupported), 0x00}
''','''			h.server.Logger.Warn("unsupported service", "service", svc)
'''))
bad('c30-server-sequential','C30',(SC,'		item.Pos = pos // seek to the start of the multi-service payload data.\n','		if i == 0 {\n			item.Pos = pos\n		}\n'))
bad('c30-frag-offset','C30',(R,'''		offset := uint32(accumulated.Len())
''','''		offset := uint32(len(initialData))
'''))
bad('c30-frag-lost','C30',(R,'''		accumulated.Write(fragData)
		if status == 0 {
			return accumulated.Bytes(), nil
		}
''','''		if status == 0 {
			accumulated.Write(fragData)
			return accumulated.Bytes(), nil
		}
		if status == byte(CIPStatus_PartialTransfer) && len(fragData) > 2 {
			accumulated.Write(fragData)
		}
'''))
bad('c30-frag-seed','C30',(R,'accumulated := bytes.NewBuffer(append([]byte(nil), initialData...))','accumulated := bytes.NewBuffer(make([]byte, 0, 2*len(initialData)))'))
ok('c30-ok-results-var',(R,'''	result_values := make([]any, 0, total)

	n := 0
	msgs := 0
	n_new := 0
	for n < total {
		msgs += 1
		n_new, err = client.countIOIsThatFit(tags[n:])
		if err != nil {
			return err
		}
		subResults, err := client.readList(tags[n : n+n_new])
		n += n_new
		if err != nil {
			return err
		}
		result_values = append(result_values, subResults...)

	}
''','''	var result_values []any
	for n := 0; n < total; {
		count, err := client.countIOIsThatFit(tags[n:])
		if err != nil {
			return err
		}
		end := n + count
		subResults, err := client.readList(tags[n:end])
		if err != nil {
			return err
		}
		n = end
		result_values = append(result_values, subResults...)
	}
'''))
ok('c30-ok-remaining',(PR,'''	for n < total {
		msgs += 1
		n_new, err = client.countIOIsThatFit(tags[n:])
		if err != nil {
			return nil, err
		}
		subresults, err := client.readList(tags[n : n+n_new])
		n += n_new
		if err != nil {
			return nil, err
		}
		results = append(results, subresults...)

	}
''','''	for rest := tags; len(rest) > 0; rest = rest[n_new:] {
		msgs += 1
		n_new, err = client.countIOIsThatFit(rest)
		if err != nil {
			return nil, err
		}
		subresults, err := client.readList(rest[:n_new])
		n += n_new
		if err != nil {
			return nil, err
		}
		results = append(results, subresults...)
	}
'''))
ok('c30-ok-store-chunk',(R,'''	result_values := make([]any, 0, total)
''',''),(R,'''		subResults, err := client.readList(tags[n : n+n_new])
		n += n_new
		if err != nil {
			return err
		}
		result_values = append(result_values, subResults...)

	}

	// now unpack the result values back into the given structure
	for i := range result_values {
		m[indexes[i]] = result_values[i]
	}
''','''		subResults, err := client.readList(tags[n : n+n_new])
		if err != nil {
			return err
		}
		// now unpack the result values back into the given structure
		for i := range subResults {
			m[indexes[n+i]] = subResults[i]
		}
		n += n_new
	}
'''))
ok('c30-ok-noindexes',(R,'		indexes[i] = k\n',''),(R,'	indexes := make([]string, total)\n',''),(R,'m[indexes[i]] = result_values[i]','m[tags[i].TagName] = result_values[i]'))
ok('c30-ok-decode',(R,'''		myBytes := bytes.NewBuffer(rb[offset:])
		rHdr := msgMultiReadResult{}
		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
		if err != nil {
			return nil, fmt.Errorf("problem reading multi result header. %w", err)
		}
''','''		myBytes, rHdr, err := multiResultAt(rb, offset)
		if err != nil {
			return nil, err
		}
'''),(R,'''func parseArrayStruct''','''func multiResultAt(rb []byte, offset int) (*bytes.Buffer, msgMultiReadResult, error) {
	result := msgMultiReadResult{}
	rest := bytes.NewBuffer(rb[offset:])
	err := binary.Read(rest, binary.LittleEndian, &result)
	if err != nil {
		return nil, result, fmt.Errorf("problem reading multi result header. %w", err)
	}
	return rest, result, nil
}

func parseArrayStruct'''))
ok('c30-ok-fields',(R,'''	for i, fieldVal := range fields {
		err = setFromResult(fieldVal, result_values[i])
''','''	for i, result := range result_values {
		err = setFromResult(fields[i], result)
'''))
ok('c30-ok-struct-list',(R,'''	taglist := make([]tagDesc, 0, len(vf))
	fields := make([]reflect.Value, 0, len(vf))
''','''	var taglist []tagDesc
	var fields []reflect.Value
'''))
ok('c30-ok-frag2',(R,'''	accumulated := bytes.NewBuffer(append([]byte(nil), initialData...))
	for {
		offset := uint32(accumulated.Len())
''','''	accumulated := new(bytes.Buffer)
	accumulated.Write(initialData)
	for {
		offset := uint32(accumulated.Len())
'''))
ok('c30-ok-write-entries',(UW,'''	// a successful write has no data so the results follow each other directly.
	for _, tag := range tags {
		var result msgUnconnWriteResultHeader
		err = items[1].DeSerialize(&result)
''','''	// a successful write has no data so the results follow each other directly.
	results := items[1]
	for i := range tags {
		tag := tags[i]
		var result msgUnconnWriteResultHeader
		err = results.DeSerialize(&result)
'''))

# ---- round of independent changes (written from the property texts) ----
bad('n01-disc-sends-unlocked','C01',('disconnect.go','''		header, data, err := client.send_recv_data(cipCommandSendRRData, itemData)
		if err != nil {''','''		// the client is going away, nobody else uses the socket now.
		var header eipHeader
		var data *bytes.Buffer
		buffer, err := client.sendMsgBuild(cipCommandSendRRData, itemData)
		if err == nil {
			err = client.sendData(buffer)
		}
		if err == nil {
			header, data, err = client.recvData()
		}
		if err != nil {'''),('disconnect.go','''import (
''','''import (
	"bytes"
'''))
bad('n01-retry-after-unlock','C01',('sendreceive.go','''	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
	if err != nil {''','''	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
	for err == nil && hdr.Context != client.Context {
		// a late reply to an older request, the next one is ours.
		hdr, buf, err = client.recvData()
	}
	if err != nil {'''))
bad('n02-keepalive-clears','C02',('connect.go','''	success := false
	var conn net.Conn
	defer func() {
		if !success {''','''	success := false
	var conn net.Conn
	defer func() {
		if !success && conn != nil {'''))
bad('n03-redial-forget','C03',('connect.go','''	conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
	if err != nil {''','''	conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
	if err == nil {
		if tcp, ok := conn.(*net.TCPConn); ok {
			if kerr := tcp.SetKeepAlive(true); kerr != nil {
				conn = nil
				return fmt.Errorf("cannot configure the socket: %w", kerr)
			}
		}
	}
	if err != nil {'''))
bad('n09-drop-conn','C09',('disconnect.go','''		client.mutex.Lock()
		client.connStatus = connectionStatusDisconnected
		client.mutex.Unlock()
	}()''','''		client.mutex.Lock()
		client.connStatus = connectionStatusDisconnected
		client.conn = nil
		client.mutex.Unlock()
	}()'''))
bad('n10-tagread-leak','C10',('server_router.go','''	tag = strings.ToLower(tag)
	p.Mutex.Lock()
	defer p.Mutex.Unlock()
	if p.Data == nil {
		p.Data = make(map[string]any)
	}

	baseName, elemIdx, hasElem := parseElementTag(tag)

	val, ok := p.Data[baseName]
	if !ok {
		return nil, fmt.Errorf("tag %v not in map", tag)
	}
''','''	tag = strings.ToLower(tag)
	baseName, elemIdx, hasElem := parseElementTag(tag)

	p.Mutex.Lock()
	val, ok := p.Data[baseName]
	if !ok {
		return nil, fmt.Errorf("tag %v not in map", tag)
	}
	p.Mutex.Unlock()
'''))
bad('n11-taglist-unlocked','C11',('server_router.go','''	p.Mutex.Lock()
	defer p.Mutex.Unlock()
	if p.Data == nil {
		return nil
	}
	tags := make([]ServerTagInfo, 0, len(p.Data))''','''	p.Mutex.Lock()
	data := p.Data
	p.Mutex.Unlock()
	if data == nil {
		return nil
	}
	tags := make([]ServerTagInfo, 0, len(data))'''),('server_router.go','for name, val := range p.Data {','for name, val := range data {'))
bad('n11-read-alias','C11',('server_router.go','return copySlice(t.Slice(elemIdx, end)), nil','return t.Slice(elemIdx, end).Interface(), nil'))
bad('n11-conn-rlock-write','C11',('server_connections.go','''func (cm *serverConnectionManager) CloseByOT(OT uint32) error {
	cm.Lock.Lock()
	defer cm.Lock.Unlock()''','''func (cm *serverConnectionManager) CloseByOT(OT uint32) error {
	cm.Lock.RLock()
	defer cm.Lock.RUnlock()'''))
bad('n11-close-check-then-act','C11',('server_connections.go','''	cm.Lock.Lock()
	defer cm.Lock.Unlock()
	for i, conn := range cm.Connections {
		if conn.TO == TO {
			conn.Open = false''','''	cm.Lock.RLock()
	at := -1
	for i, conn := range cm.Connections {
		if conn.TO == TO {
			at = i
		}
	}
	cm.Lock.RUnlock()
	if at < 0 {
		return fmt.Errorf("couldn't find connection %v by TO", TO)
	}
	cm.Lock.Lock()
	defer cm.Lock.Unlock()
	for i, conn := range cm.Connections {
		if i == at {
			conn.Open = false'''))
bad('n14-elem-slice','C14',('server_router.go','''		if end > t.Len() {
			return nil,''','''		if end > t.Cap() {
			return nil,'''))
bad('n14-elem-neg','C14',('server_router.go','if elemIdx < 0 || elemIdx >= ev.Len() {','if elemIdx >= ev.Len() {'))
bad('n14-strlen','C14',('server_connected.go','''			if slen > cipStringDataLen {
				slen = cipStringDataLen
			}
			results[i] = string(data[:slen])''','''			results[i] = string(data[:slen])'''))
bad('n14-crc-short','C14',('server_connected.go','if typ == CIPTypeStruct && len(typeInfo) >= 2 {','if typ == CIPTypeStruct {'))
bad('n14-convert-first','C14',('server_router.go','''	if v.Type().ConvertibleTo(target) {
		return v.Convert(target).Interface(), nil
	}
	return nil,''','''	if v.Type().ConvertibleTo(target) || v.Kind() == reflect.Slice {
		return v.Convert(target).Interface(), nil
	}
	return nil,'''))
bad('n19-packer','C19',('server_connected.go','''	if l > cipStringDataLen {
		l = cipStringDataLen
	}
	binary''','''	if l > len(b) {
		l = len(b)
	}
	binary'''))
bad('n13-item-read','C13',('items.go','''	if len(item.Data) <= item.Pos+1 {
		return 0, fmt.Errorf("item out of data")
	}
	val := binary.LittleEndian.Uint16(item.Data[item.Pos:])
	item.Pos += 2
	return val, nil''','''	if len(item.Data) <= item.Pos {
		return 0, fmt.Errorf("item out of data")
	}
	val := binary.LittleEndian.Uint16(item.Data[item.Pos:])
	item.Pos += 2
	return val, nil'''))
bad('n11-out-early','C11',('server_io.go','''	p.OutMutex.Lock()
	defer p.OutMutex.Unlock()

	_, err = Unpack(b, p.Out)
''','''	p.OutMutex.Lock()
	out := p.Out
	p.OutMutex.Unlock()

	_, err = Unpack(b, out)
'''))
bad('n11-out-copy','C11',('server_io.go','''	p.OutMutex.Lock()
	defer p.OutMutex.Unlock()
	t := *p.Out
	return t''','''	p.OutMutex.Lock()
	t := p.Out
	p.OutMutex.Unlock()
	return *t'''))
bad('n11-chan-list','C11',('server_iochannel.go','''	p.outMutex.Lock()
	defer p.outMutex.Unlock()
	for i := range p.outChannels {''','''	for i := range p.outChannels {'''))
bad('n11-open-read','C11',('server_connections.go','''	cm.Lock.RLock()
	defer cm.Lock.RUnlock()
	return conn.Open''','''	return conn.Open'''))
bad('n11-router','C11',('server_router.go','''	router.lock.RLock()
	defer router.lock.RUnlock()
''',''))
bad('n11-ioi-cached','C11',('write.go','''	ioi, err := client.newIOI(tag, datatype)
	if err != nil {''','''	ioi, err := client.newIOI(tag, datatype)
	if err == nil {
		ioi.Type = datatype
	}
	if err != nil {'''))
ok('n11-ok-snapshot-channels',('server_iochannel.go','''	p.outMutex.Lock()
	defer p.outMutex.Unlock()
	for i := range p.outChannels {
		select {
		case p.outChannels[i] <- out:''','''	p.outMutex.Lock()
	channels := append([]chan Tout(nil), p.outChannels...)
	p.outMutex.Unlock()
	for i := range channels {
		select {
		case channels[i] <- out:'''))
ok('n11-ok-read-swap',('server_router.go','''	if t.Kind() == reflect.Slice {
		if int(qty) <= t.Len() {
			return copySlice(t.Slice(0, int(qty))), nil
		}
		return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())
	}

	return val, nil''','''	if t.Kind() != reflect.Slice {
		return val, nil
	}
	if n := int(qty); n <= t.Len() {
		return copySlice(t.Slice(0, n)), nil
	}
	return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())'''))
bad('n11-status-two-holds','C11',('connect.go','''	client.mutex.Lock()
	defer client.mutex.Unlock()
	switch client.connStatus {
	case connectionStatusConnected:
		return fmt.Errorf("already connected")''','''	client.mutex.Lock()
	status := client.connStatus
	client.mutex.Unlock()
	switch status {
	case connectionStatusConnected:
		return fmt.Errorf("already connected")'''),('connect.go','''	case connectionStatusDisconnected:
		client.connStatus = connectionStatusConnecting
		return nil''','''	case connectionStatusDisconnected:
		client.mutex.Lock()
		client.connStatus = connectionStatusConnecting
		client.mutex.Unlock()
		return nil'''))
bad('n11-status-getter','C11',('connect.go','''	client.mutex.Lock()
	defer client.mutex.Unlock()
	switch client.connStatus {
	case connectionStatusConnected:
		return fmt.Errorf("already connected")
	case connectionStatusConnecting:
		return fmt.Errorf("connection is already in progress")
	case connectionStatusDisconnecting:
		return fmt.Errorf("connection is currently disconnecting")
	case connectionStatusDisconnected:
		client.connStatus = connectionStatusConnecting
		return nil
	default:
		return fmt.Errorf("unknown connection status: %d", client.connStatus)
	}''','''	if client.Connected() {
		return fmt.Errorf("already connected")
	}
	client.mutex.Lock()
	defer client.mutex.Unlock()
	client.connStatus = connectionStatusConnecting
	return nil'''))
# second round
SU='server_unconnected.go'; SC='server_connected.go'; LA='listalltags.go'
bad('m08-tags-last-valid','C08',(LA,'''		last_instance = tag_hdr.InstanceID

''',''),(LA,'''		client.KnownTags[strings.ToLower(string(tag_name))] = kt

	}
''','''		client.KnownTags[strings.ToLower(string(tag_name))] = kt
		last_instance = tag_hdr.InstanceID
	}
'''),(LA,'''		if next_instance <= start_instance {
			return fmt.Errorf("no new tags in partial response from instance %d", start_instance)
		}
''',''))
bad('m13-dims','C13',(LA,'''			kt.Array_Order = make([]int, 2)
			kt.Array_Order[1]''','''			kt.Array_Order = make([]int, 1, 2)
			kt.Array_Order[1]'''))
bad('m13-dt-string','C13',('datatable.go','''		if len(raw) < 4 {
			return nil,''','''		if len(raw) == 0 {
			return nil,'''))
bad('m13-dt-string2','C13',('datatable.go','''		if strLen > uint32(len(raw)-4) {
			strLen = uint32(len(raw) - 4)
		}
''',''))
bad('m14-unconn-path','C14',(SU,'''		pathBytes := make([]byte, int(pathSize)*2)
''','''		pathBytes := make([]byte, int(pathSize)*2)
''')) if False else None
bad('m14-attr-cast','C14',(SU,'''	name, ok := attrs[7].(string)
	if !ok {
		return nil, fmt.Errorf("program object''','''	name, ok := attrs[8].(string)
	if ok {
		name = attrs[7].(string)
	}
	if !ok {
		return nil, fmt.Errorf("program object''')) if False else None
bad('m19-product','C19',(SU,'''	buf.WriteByte(byte(len(productName)))
	buf.WriteString(productName)''','''	buf.WriteByte(byte(len(attrs[7].(string))))
	buf.WriteString(productName)'''),) if False else None
bad('m20-symbol-name','C20',(SU,'''		if len(name) > 255 {
			name = name[:255]
		}
		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))''','''		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))'''))
bad('m20-program-name','C20',(SU,'''	if len(name) > 255 {
		name = name[:255]
	}
	var buf bytes.Buffer
	buf.WriteByte(byte(len(name)))''','''	if len(name) > 256 {
		name = name[:256]
	}
	var buf bytes.Buffer
	buf.WriteByte(byte(len(name)))'''))
bad('m21-malformed-silent','C21',(SU,'''		h.server.Logger.Warn("get_attributes_all: malformed path", "bytes", pathBytes)
		return h.sendUnconnectedErrorReply(CIPService_GetAttributeAll, CIPStatus_PathSegmentError)''','''		h.server.Logger.Warn("get_attributes_all: malformed path", "bytes", pathBytes)
		return nil'''))
bad('m22-embedded-service','C22',(SU,'return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)','return h.sendUnconnectedErrorReply(service, CIPStatus_ServiceNotSupported)'))
bad('m22-gaa-instance','C22',(SU,'''		if instance != 1 {
			return h.sendUnconnectedErrorReply(CIPService_GetAttributeAll,''','''		if instance != 1 {
			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle,'''))
bad('m23-multi-write-later','C23',(SC,'''			if qty > 1 {
				err = p.TagWrite(tag, writeTags)
				if err != nil {
					return fmt.Errorf("problem writing tag %v. %w", tag, err)
				}
			} else {''','''			if qty > 1 {
				// takes long for big arrays.
				go p.TagWrite(tag, writeTags)
			} else {'''))
bad('m23-multi-zero','C23',(SC,'''			if qty == 0 {
				return fmt.Errorf("no values to write for tag %s", tag)
			}
			writeTags''','''			if qty == 0 {
				results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
				continue
			}
			writeTags'''))
bad('m22-read-error-seq','C22',(SC,'''		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)''','''		err2 := h.sendConnectedError(CIPService_Read, seq, connection.TO, CIPStatus_InvalidMemberID, 0)'''))
bad('m24-session-end','C24',('server.go','''	defer func() {
		h.conn.Close()
		srv.ConnMgr.closeOwnedBy(h)
	}()
''','''	defer func() {
		if h.OTConnectionID != 0 {
			srv.ConnMgr.closeOwnedBy(h)
		}
		h.conn.Close()
	}()
'''))
bad('m24-by-ot','C24',('server_connections.go','''		if conn.OT == OT {
			conn.Open = false
			if len(cm.Connections) == 1 {
				cm.Connections = make([]*serverConnection, 0, 32)
				return nil
			}
			cm.Connections[i] = cm.Connections[len(cm.Connections)-1]
			cm.Connections = cm.Connections[:len(cm.Connections)-1]''','''		if conn.OT == OT {
			conn.Open = false
			if len(cm.Connections) == 1 {
				cm.Connections = make([]*serverConnection, 0, 32)
				return nil
			}
			cm.Connections[i] = cm.Connections[len(cm.Connections)-1]
			cm.Connections = cm.Connections[:i+1]'''))
bad('m25-accept','C25',('server.go','''			if !isTemporary(err) {
				return fmt.Errorf("problem with tcp accept: %w", err)
			}''','''			if isTemporary(err) {
				return fmt.Errorf("problem with tcp accept: %w", err)
			}'''))
bad('m25-errch','C25',('server.go','''	go func() {
		err := srv.serveUDP()
		if err != nil {
			errCh''','''	go func() {
		err := srv.serveUDP()
		if err != nil && !errors.Is(err, net.ErrClosed) {
			errCh'''))
bad('m25-close','C25',('server.go','''	err = srv.TCPListener.Close()
	if err != nil {
		final_err.Add(fmt.Errorf("err on tcp close: %w", err))
	}
	err = srv.UDPListener.Close()
	if err != nil {''','''	err = srv.TCPListener.Close()
	if err != nil {
		final_err.Add(fmt.Errorf("err on tcp close: %w", err))
		return final_err
	}
	err = srv.UDPListener.Close()
	if err != nil {'''))
bad('m25-session-spin','C25',('server.go','''		err := binary.Read(h.conn, binary.LittleEndian, &eipHdr)
		if err != nil {
			return fmt.Errorf("problem reading eip header. %w", err)
		}''','''		err := binary.Read(h.conn, binary.LittleEndian, &eipHdr)
		if errors.Is(err, io.ErrUnexpectedEOF) {
			continue
		}
		if err != nil {
			return fmt.Errorf("problem reading eip header. %w", err)
		}'''))
bad('m28-resolve','C28',('datatable.go','''			if kt.UDT.Info.SizeBytes > math.MaxUint16 {
				return 0, fmt''','''			if kt.UDT.Info.SizeBytes > math.MaxUint16 {
				return 0, nil
				_ = fmt''')) if False else None
bad('m29-delete-first','C28',('datatable.go','''	_, err = client.GenericCIPMessage(CIPService_Delete, path, []byte{})
	if err != nil {
		return fmt.Errorf("datatable buffer delete failed: %w", err)
	}
	return nil''','''	_, err = client.GenericCIPMessage(CIPService_Delete, path, []byte{})
	if err != nil {
		client.Logger.Warn("datatable buffer delete failed", "error", err)
	}
	return nil'''))
bad('m32-dt-path','C32',('datatable.go','binary.LittleEndian.PutUint16(path[4:], instanceID)','binary.BigEndian.PutUint16(path[4:], instanceID)'))
bad('m16-dt-path','C16',('datatable.go','path := []byte{0x20, 0xB2, 0x25, 0x00, 0x00, 0x00}\n	binary.LittleEndian.PutUint16(path[4:], instanceID)','path := []byte{0x20, 0xB2, 0x25, 0x00, 0x00, 0x00}\n	binary.LittleEndian.PutUint16(path[3:], instanceID)'))
bad('m33-multi-reply','C33',(SC,'return h.sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response...)','return h.sendConnectedReply(CIPService_MultipleService, seq, connection.OT, response...)'))
bad('m30-datatable-order','C30',(SC,'''			results[i] = b.Bytes()
		case''','''			results[len(results)-1-i] = b.Bytes()
		case'''))
# third independent round: properties with few mutants
SR='sendreceive.go'; CN='connect.go'; DC='disconnect.go'; RD='read.go'; WR='write.go'; LT='l5x/load_tags.go'
bad('p01-gap','C01',(SR,'	hdr, buf, err := client.recvData()\n	client.mutex.Unlock()','	client.mutex.Unlock()\n	client.mutex.Lock()\n	hdr, buf, err := client.recvData()\n	client.mutex.Unlock()'))
bad('p01-trylock','C01',(SR,'	client.mutex.Lock()\n	if client.conn == nil {\n		client.mutex.Unlock()\n		return eipHeader{}','	if !client.mutex.TryLock() {\n		client.Logger.Debug("client is busy")\n	}\n	if client.conn == nil {\n		client.mutex.Unlock()\n		return eipHeader{}'))
bad('p01-drain','C01',(CN,'			if !client.Connected() {\n				client.Logger.Warn("keepalive failed. not connected")\n				return\n			}','			if !client.Connected() {\n				client.Logger.Warn("keepalive failed. not connected")\n				return\n			}\n			_, err := client.conn.Write(nil)\n			if err != nil {\n				return\n			}'))
bad('p01-build-early','C01',(SR,'	client.mutex.Lock()\n	if client.conn == nil {\n		client.mutex.Unlock()\n		return eipHeader{}, nil, errors.New("client has never been connected")\n	}\n	buffer, err := client.sendMsgBuild(cmd, msgs...)\n	if err != nil {\n		client.mutex.Unlock()\n','	buffer, err := client.sendMsgBuild(cmd, msgs...)\n	client.mutex.Lock()\n	if client.conn == nil {\n		client.mutex.Unlock()\n		return eipHeader{}, nil, errors.New("client has never been connected")\n	}\n	if err != nil {\n		client.mutex.Unlock()\n'))
bad('p02-dialfail','C02',(CN,'			if conn != nil {\n				conn.Close()\n			}\n			client.mutex.Lock()','			if conn == nil {\n				return\n			}\n			conn.Close()\n			client.mutex.Lock()'))
bad('p02-early-success','C02',(CN,'	err = client.registerSession()\n	if err != nil {\n		return err\n	}\n','	err = client.registerSession()\n	if err != nil {\n		return err\n	}\n	success = true\n'))
bad('p02-register-status','C02',(CN,'	if header.Status != 0 {\n		msg := "session registration refused"','	if header.Status != 0 && header.SessionHandle == 0 {\n		msg := "session registration refused"'))
bad('p02-disc-path','C02',(DC,'''	client.Logger.Info("starting disconnection")

''','''	client.Logger.Info("starting disconnection")
	if client.SessionHandle == 0 {
		return fmt.Errorf("no session")
	}

'''))
bad('p02-panic-default','C02',(CN,'	case connectionStatusDisconnected:\n		client.connStatus = connectionStatusConnecting\n		return nil\n	default:\n		return','	case connectionStatusDisconnected:\n		client.connStatus = connectionStatusConnecting\n		if client.Controller.IpAddress == "" {\n			return fmt.Errorf("no address")\n		}\n		return nil\n	default:\n		return'))
bad('p03-shadow','C03',(CN,'	conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)','	sock, err := net.DialTimeout("tcp", address, client.SocketTimeout)'),(CN,'	client.conn = conn\n','	client.conn = sock\n'))
bad('p03-cond','C03',(CN,'			if conn != nil {\n				conn.Close()','			if conn != nil && client.SessionHandle != 0 {\n				conn.Close()'))
bad('p03-disc','C03',(DC,'''	defer func() {
		if err := client.conn.Close(); err != nil {
			client.Logger.Error("error closing connection", slog.Any("err", err))
		}
		client''','''	closeConn := false
	defer func() {
		if closeConn {
			if err := client.conn.Close(); err != nil {
				client.Logger.Error("error closing connection", slog.Any("err", err))
			}
		}
		client'''),(DC,'	itemData, err := serializeItems(items)','	closeConn = true\n	itemData, err := serializeItems(items)'))
bad('p04-cond','C04',(SR,'''	err = binary.Read(client.conn, binary.LittleEndian, &hdr)
	if err != nil {
		return hdr, nil, fmt''','''	if client.SessionHandle == 0 {
		err = client.conn.SetReadDeadline(time.Time{})
		if err != nil {
			return hdr, nil, fmt.Errorf("problem setting read deadline: %w", err)
		}
	}
	err = binary.Read(client.conn, binary.LittleEndian, &hdr)
	if err != nil {
		return hdr, nil, fmt'''))
bad('p04-dial','C04',(CN,'net.DialTimeout("tcp", address, client.SocketTimeout)','net.Dial("tcp", address)'))
bad('p04-writeonce','C04',(SR,'		if client.SocketTimeout != 0 {\n			err := client.conn.SetWriteDeadline','		if client.SocketTimeout > 0 && written > 0 {\n			err := client.conn.SetWriteDeadline'),(SR,'		} else {\n			err := client.conn.SetWriteDeadline(time.Now().Add(time.Second))','		} else if client.SocketTimeout == 0 {\n			err := client.conn.SetWriteDeadline(time.Now().Add(time.Second))'))
bad('p05-async','C05',(SR,'		err2 := client.Disconnect()\n		if err2 != nil {\n			return hdr, buf','		var err2 error\n		go func() { err2 = client.Disconnect() }()\n		if err2 != nil {\n			return hdr, buf'))
bad('p05-short','C05',(SR,'		err = binary.Read(client.conn, binary.LittleEndian, &data)','		_, err = client.conn.Read(data)'))
bad('p05-unlock-nodisc','C05',(SR,'''		err2 := client.Disconnect()
		if err2 != nil {
			return eipHeader{}, nil, fmt.Errorf("error disconnecting after send error %w: %w", err, err2)
		}
		return eip''','''		if cmd != cipCommandRegisterSession && cmd != cipCommandListIdentity {
			err2 := client.Disconnect()
			if err2 != nil {
				return eipHeader{}, nil, fmt.Errorf("error disconnecting after send error %w: %w", err, err2)
			}
		}
		return eip'''))
bad('p06-write-ext','C06',(WR,'	if hdr2.Status != CIPStatus_OK {\n		extended := uint16(0)','	if hdr2.Status != CIPStatus_OK && hdr2.StatusExtended != 0 {\n		extended := uint16(0)'))
bad('p06-read-status','C06',(RD,'	} else if hdr2.Status[1] != 0 {\n		return nil, fmt.Errorf("read of %s returned','	} else if hdr2.Status[1] != 0 && items[1].Header.Length < 8 {\n		return nil, fmt.Errorf("read of %s returned'))
bad('p06-attr','C06',('getattr.go','	if resphdr.Status != uint16(CIPStatus_OK) {\n		return &items[1], fmt','	if resphdr.Status&0xFF00 != uint16(CIPStatus_OK) {\n		return &items[1], fmt'))
bad('p06-write-return','C06',(WR,'''			err = items[1].DeSerialize(&extended)
			return fmt.Errorf("got status %d:%d:%d instead of 0 in write response.  Problem getting extended status %w",
				hdr2.Status,
				hdr2.StatusExtended,
				extended,
				err)
''','''			return items[1].DeSerialize(&extended)
'''))
bad('p06-subtags','C06',('listsubtags.go','data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer)','data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) && data2.Len() == 0'))
bad('p07-load','C07',(RD,'		Sequence:     uint16(sequencer()),\n		Service:      CIPService_MultipleService,\n		PathSize:     2,\n		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},\n		ServiceCount: serviceCount','		Sequence:     uint16(client.sequenceNumber.Load()),\n		Service:      CIPService_MultipleService,\n		PathSize:     2,\n		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},\n		ServiceCount: serviceCount'))
bad('p07-tags','C07',('getattr.go','SequenceCount: uint16(sequencer()),\n		Service:       CIPService_GetAttributeSingle','SequenceCount: client.HeaderSequenceCounter,\n		Service:       CIPService_GetAttributeSingle'))
bad('p09-nilcheck','C09',(SR,'	if client.conn == nil {\n		client.mutex.Unlock()\n		return eip','	if client.conn == nil && cmd == cipCommandSendUnitData {\n		client.mutex.Unlock()\n		return eip'))
bad('p09-close','C09',(SR,'	if client.conn != nil {\n		client.conn.Close()\n	}','	client.conn.Close()'))
bad('p09-ignore','C28',(WR,'''	err := client.checkConnection()
	if err != nil {
		return fmt.Errorf("could not start write: %w", err)
	}''','''	err := client.checkConnection()
	if err != nil {
		client.Logger.Warn("writing without a connection", "error", err)
	}'''))
bad('p10-return','C10',(SR,'	if err != nil {\n		client.mutex.Unlock()\n		return eipHeader{}, nil, fmt.Errorf("error preparing','	if err != nil {\n		return eipHeader{}, nil, fmt.Errorf("error preparing'))
bad('p10-self','C10',(SR,'	if err != nil {\n		client.mutex.Unlock()\n		err2 := client.Disconnect()\n		if err2 != nil {\n			return eip','	if err != nil {\n		defer client.mutex.Unlock()\n		err2 := client.Disconnect()\n		if err2 != nil {\n			return eip'))
bad('p10-order','C10',('ioi.go','	client.ioi_cache_lock.Lock()\n	defer client.ioi_cache_lock.Unlock()\n','	client.ioi_cache_lock.Lock()\n	defer client.ioi_cache_lock.Unlock()\n	if !client.Connected() {\n		client.Logger.Debug("not connected")\n	}\n'),(CN,'	client.mutex.Lock()\n	client.conn = conn\n','	client.mutex.Lock()\n	client.conn = conn\n	client.ioi_cache_lock.Lock()\n	clear(client.ioi_cache)\n	client.ioi_cache_lock.Unlock()\n'))
bad('p10-keepalive','C10',(CN,'	if client.keepAliveRunning {\n		client.mutex.Unlock()\n		err :=','	if client.keepAliveRunning {\n		err :='))
bad('p10-firmware','C10',('ioi.go','	firmware := client.firmware()\n\n	client.ioi_cache_lock.Lock()\n	defer client.ioi_cache_lock.Unlock()\n','	client.ioi_cache_lock.Lock()\n	defer client.ioi_cache_lock.Unlock()\n	firmware := client.firmware()\n	if _, err := client.newIOI("x", CIPTypeDINT); err != nil {\n		firmware = 0\n	}\n'))
bad('p12-nonil','C12',(DC,'		close(client.cancel_keepalive)\n		client.cancel_keepalive = nil\n','		close(client.cancel_keepalive)\n'))
bad('p12-nocancel','C12',(DC,'	client.stopKeepAlive()\n\n	items','	if client.KeepAliveAutoStart {\n		client.stopKeepAlive()\n	}\n\n	items'))
bad('p12-loopexit','C12',(CN,'			if !client.Connected() {\n				client.Logger.Warn("keepalive failed. not connected")\n				return\n			}','			if !client.Connected() {\n				client.Logger.Warn("keepalive failed. not connected")\n				continue\n			}'),(CN,'		case <-cancel:\n			client.KeepAliveAutoStart = false\n			return\n','		case <-cancel:\n			client.KeepAliveAutoStart = false\n			cancel = nil\n'))
bad('p12-claim','C12',(CN,'	client.cancel_keepalive = cancel\n	client.keepAliveRunning = true\n	client.mutex.Unlock()\n','	client.cancel_keepalive = cancel\n	client.mutex.Unlock()\n	client.mutex.Lock()\n	client.keepAliveRunning = true\n	client.mutex.Unlock()\n'))
bad('p12-other','C12',(CN,'		if client.cancel_keepalive == cancel {\n			client.cancel_keepalive = nil\n			client.keepAliveRunning = false\n		}','		client.cancel_keepalive = nil\n		client.keepAliveRunning = false'))
bad('p13-uint16','C13',('items.go','	if len(item.Data) <= item.Pos+1 {\n		return 0, fmt.Errorf("item out of data")\n	}\n	val := binary.LittleEndian.Uint16(item.Data[item.Pos:])\n	item.Pos += 2\n	return val','	if len(item.Data) <= item.Pos {\n		return 0, fmt.Errorf("item out of data")\n	}\n	val := binary.LittleEndian.Uint16(item.Data[item.Pos:])\n	item.Pos += 2\n	return val'))
bad('p13-items','C13',(WR,'	if len(items) < 2 {\n		return fmt.Errorf("wrong','	if len(items) == 0 {\n		return fmt.Errorf("wrong'))
bad('p13-strlen','C13',(RD,'				if int64(str_hdr.Length) > int64(len(str)) {','				if str_hdr.Length > math.MaxUint16 {'))
bad('p13-cast','C13',(RD,'		cast2, ok := v.(T)\n		if !ok {\n			return t, errors.New("couldn\'t convert to correct type")\n		}\n		t[i] = cast2','		t[i] = v.(T)'))
bad('p13-resultlen','C13',(RD,'		if len(v) != count {\n			return fmt','		if len(v) < count {\n			return fmt')) if False else None
bad('p13-setfrom','C13',(RD,'	if len(results) != len(dests) {\n		return fmt.Errorf("got %d elements instead of %d", len(results), len(dests))\n	}\n	for i := range dests {\n		v :=','	if len(results) > len(dests) {\n		return fmt.Errorf("got %d elements instead of %d", len(results), len(dests))\n	}\n	for i := range dests {\n		v :='))
bad('p13-nilvalue','C13',(RD,'if !v.IsValid() || !v.Type().AssignableTo(dests[i].Type()) {','if v.Kind() != dests[i].Kind() {'))
bad('p15-index','C15',('ioi.go','			if start_index <= 0 || start_index != strings.LastIndex(tag_part, "[") {','			if start_index != strings.LastIndex(tag_part, "[") {'))
bad('p15-path','C15',('path.go','			if last_pos < 0 {\n				return nil','			if last_pos < 0 && len(parts) == 1 {\n				return nil'))
bad('p15-types','C15',('partialread.go','if len(types) != len(tagnames) || len(elements) != len(tagnames) {','if len(types) != len(tagnames) && len(elements) != len(tagnames) {'))
bad('p15-progress','C15',('read.go','if tag.Elements < 0 || tag.Elements > math.MaxUint16 {','if tag.Elements > math.MaxUint16 {'))
bad('p15-nilptr','C15',(RD,'if ptr.Kind() != reflect.Pointer || ptr.IsNil() || ptr.Elem().Kind() != reflect.Struct {','if ptr.Kind() != reflect.Pointer || ptr.Elem().Kind() != reflect.Struct && !ptr.IsNil() {'))
bad('p15-canset','C15',(RD,'		if !fieldVal.CanSet() {\n			return fmt.Errorf("can\'t read into field %s", field.Name)\n		}\n',''))
bad('p34-str','C34',(RD,'				if int64(str_hdr.Length) > int64(len(items[1].Data)-items[1].Pos) {\n					return nil, fmt.Errorf("string length %d is more than the reply holds", str_hdr.Length)\n				}\n',''))
bad('p34-neg','C34',(RD,'if int64(str_hdr.Length) > int64(len(items[1].Data)-items[1].Pos) {','if int32(str_hdr.Length) > int32(len(items[1].Data)-items[1].Pos) {'))
bad('p35-nilctl','C35',(LT,'	if l5xData == nil || l5xData.Controller == nil {','	if l5xData == nil {'))
bad('p35-len','C35',(LT,'		if tag.Data != nil {\n			if len(tag.Description) > 0 {\n				mydesc','		if tag.Data != nil {\n			if tag.Description != nil || len(tag.Comments) > 0 {\n				mydesc'))
bad('p35-struct','C35',(LT,'						if len(element.Structure) > 0 {','						if element.ValueAttr == "" {'))
bad('p35-conn','C35',(LT,'		if module.Communications.Connections == nil {\n			continue\n		}\n',''))
bad('p35-rec','C35',(LT,'|| slices.Contains(parents, typeName)',''))
bad('p35-desc','C35',(LT,'			if myDescription != "" {\n				memberDesc = myDescription + " " + member.Description.CData()','			if myDescription != "" {\n				memberDesc = myDescription + " " + member.Description.CData()[:1]'))
bad('p35-offset','C35',(LT,'if len(offset_str) > 2 {','if offset_str != "" {'))
bad('p35-sched','C35',(LT,'		if task.ScheduledPrograms == nil {\n			continue\n		}\n',''))
bad('p06-shift','C06',('getattr.go','	if resphdr.Status != uint16(CIPStatus_OK) {\n		return &items[1], fmt','	if resphdr.Status>>8 != uint16(CIPStatus_OK) {\n		return &items[1], fmt'))
ok('p06-ok-lowbyte',('getattr.go','	if resphdr.Status != uint16(CIPStatus_OK) {\n		return &items[1], fmt','	if CIPStatus(resphdr.Status&0xFF) != CIPStatus_OK {\n		return &items[1], fmt'))
bad('q15-multi','C15',('udt_write.go','''			continue //TODO
		}
		if !v.CanInterface() {
			return nil, fmt.Errorf("can't write unexported field %s of %T", f.Name, data)
		}
		switch v.Kind() {
		case reflect.Struct:
			d2, err := udt_to_dict(fulltag, v.Interface())
			if err != nil {
				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
			}
			for k := range d2 {
				d[k] = d2[k]
			}
		default:
			d[fulltag] = v.Interface()
		}

	}

	return d, nil

}

// convert a struct to a map''','''			continue //TODO
		}
		if !v.CanInterface() && fulltag == "" {
			return nil, fmt.Errorf("can't write unexported field %s of %T", f.Name, data)
		}
		switch v.Kind() {
		case reflect.Struct:
			d2, err := udt_to_dict(fulltag, v.Interface())
			if err != nil {
				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
			}
			for k := range d2 {
				d[k] = d2[k]
			}
		default:
			d[fulltag] = v.Interface()
		}

	}

	return d, nil

}

// convert a struct to a map'''))
ok('q15-exported',('udt_write.go','''		fulltag := f.Tag.Get("gologix")
		if v.Kind() == reflect.Array {
			continue //TODO
		}
		if !v.CanInterface() {''','''		fulltag := f.Tag.Get("gologix")
		if v.Kind() == reflect.Array {
			continue //TODO
		}
		if !f.IsExported() {'''))
ok('q15-pkgpath',('udt_write.go','''		fulltag := f.Tag.Get("gologix")
		if v.Kind() == reflect.Array {
			continue //TODO
		}
		if !v.CanInterface() {''','''		fulltag := f.Tag.Get("gologix")
		if v.Kind() == reflect.Array {
			continue //TODO
		}
		if f.PkgPath != "" {'''))
ok('q15-typefield',('udt_write.go','''		fulltag := f.Tag.Get("gologix")
		if v.Kind() == reflect.Array {
			continue //TODO
		}
		if !v.CanInterface() {''','''		fulltag := f.Tag.Get("gologix")
		if v.Kind() == reflect.Array {
			continue //TODO
		}
		if exported := vs.Type().Field(i).IsExported(); !exported {'''))
# refactorings, round r
SV='server.go'; SM='server_connections.go'; RT='server_router.go'; IO='server_io.go'
ok('r-serve-dispatch',(SV,'''		switch eipHdr.Command {
		case cipCommandRegisterSession:
			err = h.registerSession(eipHdr, data)
			if err != nil {
				return fmt.Errorf("problem with register session %w", err)
			}
''','''		done, err := h.dispatch(eipHdr, data)
		if done || err != nil {
			return err
		}
	}

}

// dispatch handles one message and tells whether it was the last of the session.
func (h *serverTCPHandler) dispatch(eipHdr eipHeader, data io.Reader) (bool, error) {
		var err error
		switch eipHdr.Command {
		case cipCommandRegisterSession:
			err = h.registerSession(eipHdr, data)
			if err != nil {
				return false, fmt.Errorf("problem with register session %w", err)
			}
'''),(SV,'''				return fmt.Errorf("problem with sendRRData %w", err)''','''				return false, fmt.Errorf("problem with sendRRData %w", err)'''),
(SV,'''				return fmt.Errorf("problem with sendUnitData %w", err)''','''				return false, fmt.Errorf("problem with sendUnitData %w", err)'''),
(SV,'''				return fmt.Errorf("problem with sendListServices %w", err)''','''				return false, fmt.Errorf("problem with sendListServices %w", err)'''),
(SV,'''				return fmt.Errorf("problem with sendListIdentity %w", err)''','''				return false, fmt.Errorf("problem with sendListIdentity %w", err)'''),
(SV,'''			// there is no reply to this, it just ends the session.
			return nil
''','''			// there is no reply to this, it just ends the session.
			return true, nil
'''),(SV,'''				return fmt.Errorf("problem rejecting command %v %w", eipHdr.Command, err)
			}
		}
	}

}
''','''				return false, fmt.Errorf("problem rejecting command %v %w", eipHdr.Command, err)
			}
		}
		return false, nil
}
'''))
ok('r-serve-readmsg',(SV,'''		var eipHdr eipHeader
		err := binary.Read(h.conn, binary.LittleEndian, &eipHdr)
		if err != nil {
			return fmt.Errorf("problem reading eip header. %w", err)
		}
		// take the whole message, so whatever a handler leaves isn't mistaken for the next one.
		body := make([]byte, eipHdr.Length)
		_, err = io.ReadFull(h.conn, body)
		if err != nil {
			return fmt.Errorf("problem reading eip message. %w", err)
		}
		data := bytes.NewReader(body)
''','''		eipHdr, body, err := readMessage(h.conn)
		if err != nil {
			return err
		}
		data := bytes.NewReader(body)
'''),(SV,'''func (h *serverTCPHandler) sendUnitData(hdr''','''// readMessage takes one whole message from the connection.
func readMessage(r io.Reader) (hdr eipHeader, body []byte, err error) {
	if err = binary.Read(r, binary.LittleEndian, &hdr); err != nil {
		return hdr, nil, fmt.Errorf("problem reading eip header. %w", err)
	}
	body = make([]byte, hdr.Length)
	if _, err = io.ReadFull(r, body); err != nil {
		return hdr, nil, fmt.Errorf("problem reading eip message. %w", err)
	}
	return hdr, body, nil
}

func (h *serverTCPHandler) sendUnitData(hdr'''))
ok('r-unit-switch-last',(SV,'''	switch service {
	case CIPService_Write:
		err = h.cipConnectedWrite(items)
		if err != nil {
			return fmt.Errorf("problem handling write. %w", err)
		}
	case CIPService_FragRead:
		err = h.connectedRead(CIPService_FragRead, items)
		if err != nil {
			return fmt.Errorf("problem handling frag read. %w", err)
		}
	case CIPService_Read:
		err = h.connectedRead(CIPService_Read, items)
		if err != nil {
			return fmt.Errorf("problem handling non-frag read. %w", err)
		}
''','''	switch service {
	case CIPService_Write:
		err = h.cipConnectedWrite(items)
		if err != nil {
			return fmt.Errorf("problem handling write. %w", err)
		}
	case CIPService_FragRead, CIPService_Read:
		err = h.connectedRead(service, items)
		if err != nil {
			return fmt.Errorf("problem handling read. %w", err)
		}
'''))
ok('r-unit-items-helper',(SV,'''	var interface_handle uint32
	var timeout uint16
	err := binary.Read(data, binary.LittleEndian, &interface_handle)
	if err != nil {
		return fmt.Errorf("problem reading interface handle %w", err)
	}
	err = binary.Read(data, binary.LittleEndian, &timeout)
	if err != nil {
		return fmt.Errorf("problem reading timeout %w", err)
	}
	items, err := readItems(data)
	if err != nil {
		return fmt.Errorf("problem reading items for rrData %w", err)
	}
	if len(items) != 2 {
		return fmt.Errorf("expected 2 items. got %v", len(items))
	}
	// item 0 is the connected''','''	items, err := readTwoItems(data)
	if err != nil {
		return err
	}
	// item 0 is the connected'''),(SV,'''// sendUnitDataErrorReply emits''','''// readTwoItems reads what follows the header of a data message.
func readTwoItems(data io.Reader) ([]CIPItem, error) {
	var pre msgPreItemData
	if err := binary.Read(data, binary.LittleEndian, &pre); err != nil {
		return nil, fmt.Errorf("problem reading interface handle and timeout %w", err)
	}
	items, err := readItems(data)
	if err != nil {
		return nil, fmt.Errorf("problem reading items for rrData %w", err)
	}
	if len(items) != 2 {
		return nil, fmt.Errorf("expected 2 items. got %v", len(items))
	}
	return items, nil
}

// sendUnitDataErrorReply emits'''))
ok('r-udp-helper',(SV,'''		buf := bytes.NewBuffer(b[:n])
		_ = addr // don't need this yet.
		// we've read a packet on udp so we need to parse the eip data

		items, err := readItems(buf)
		if err != nil {
			srv.Logger.Debug("problem reading udp items", "error", err)
			continue
		}
		if len(items) != 2 {
			srv.Logger.Debug("expected 2 items", "got", len(items))
			continue
		}
		if items[0].Header.ID == cipItem_SequenceAddress {
			// this is an IO message (output data from the controller to us as an "io adapter" in the hardware tree)
			io_info := cipIOSeqAccessData{}
			err := items[0].DeSerialize(&io_info)
			if err != nil {
				srv.Logger.Debug("problem reading sequence address info.")
				continue
			}
			h, err := srv.ConnMgr.GetByOT(io_info.ConnectionID)
			if err != nil {
				srv.Logger.Debug("couldn't find handler to handle IO message", "connection", io_info.ConnectionID)
				continue
			}

			tp, err := srv.Router.Resolve(h.Path)
			if err != nil {
				srv.Logger.Debug("couldn't find tag provider to handle IO message", "connection", io_info.ConnectionID, "path", h.Path)
				continue
			}
			err = tp.IOWrite(items)
			if err != nil {
				srv.Logger.Debug("Problem writing IO to tag provider", "error", err)
				continue
			}

		}

	}
}
''','''		_ = addr // don't need this yet.
		if err := srv.handleDatagram(b[:n]); err != nil {
			srv.Logger.Debug("problem handling datagram", "error", err)
		}
	}
}

func (srv *Server) handleDatagram(b []byte) error {
	items, err := readItems(bytes.NewBuffer(b))
	if err != nil {
		return fmt.Errorf("problem reading udp items: %w", err)
	}
	if len(items) != 2 {
		return fmt.Errorf("expected 2 items, got %d", len(items))
	}
	if items[0].Header.ID != cipItem_SequenceAddress {
		return nil
	}
	// this is an IO message (output data from the controller to us as an "io adapter" in the hardware tree)
	var info cipIOSeqAccessData
	if err := items[0].DeSerialize(&info); err != nil {
		return fmt.Errorf("problem reading sequence address info: %w", err)
	}
	conn, err := srv.ConnMgr.GetByOT(info.ConnectionID)
	if err != nil {
		return fmt.Errorf("couldn't find handler to handle IO message: %w", err)
	}
	tp, err := srv.Router.Resolve(conn.Path)
	if err != nil {
		return fmt.Errorf("couldn't find tag provider to handle IO message: %w", err)
	}
	return tp.IOWrite(items)
}
'''))
ok('r-conns-find',(SM,'''func (cm *serverConnectionManager) GetByID(ID uint16) (*serverConnection, error) {
	cm.Lock.RLock()
	defer cm.Lock.RUnlock()
	for _, conn := range cm.Connections {
		if conn.ID == ID {
			return conn, nil
		}
	}
	return nil, fmt.Errorf("couldn't find connection %v by ID", ID)
}
func (cm *serverConnectionManager) GetByOT(OT uint32) (*serverConnection, error) {
	cm.Lock.RLock()
	defer cm.Lock.RUnlock()
	for _, conn := range cm.Connections {
		if conn.OT == OT {
			return conn, nil
		}
	}
	return nil, fmt.Errorf("couldn't find connection %v by OT", OT)
}
''','''func (cm *serverConnectionManager) find(match func(*serverConnection) bool) *serverConnection {
	cm.Lock.RLock()
	defer cm.Lock.RUnlock()
	for _, conn := range cm.Connections {
		if match(conn) {
			return conn
		}
	}
	return nil
}
func (cm *serverConnectionManager) GetByID(ID uint16) (*serverConnection, error) {
	conn := cm.find(func(c *serverConnection) bool { return c.ID == ID })
	if conn == nil {
		return nil, fmt.Errorf("couldn't find connection %v by ID", ID)
	}
	return conn, nil
}
func (cm *serverConnectionManager) GetByOT(OT uint32) (*serverConnection, error) {
	conn := cm.find(func(c *serverConnection) bool { return c.OT == OT })
	if conn == nil {
		return nil, fmt.Errorf("couldn't find connection %v by OT", OT)
	}
	return conn, nil
}
'''))
ok('r-conns-remove',(SM,'''	for i, conn := range cm.Connections {
		if conn.ID == ID && conn.VendorID == vendorID && conn.OriginatorSerialNumber == originatorSerialNumber {
			conn.Open = false
			cm.Connections = append(cm.Connections[:i], cm.Connections[i+1:]...)
			return nil
		}
	}
	return fmt''','''	for i, conn := range cm.Connections {
		if conn.ID != ID || conn.VendorID != vendorID || conn.OriginatorSerialNumber != originatorSerialNumber {
			continue
		}
		cm.remove(i)
		return nil
	}
	return fmt'''),(SM,'''// closeOwnedBy closes''','''// remove closes a connection of the table. Call with the lock held.
func (cm *serverConnectionManager) remove(i int) {
	cm.Connections[i].Open = false
	cm.Connections = append(cm.Connections[:i], cm.Connections[i+1:]...)
}

// closeOwnedBy closes'''))
ok('r-conns-indexfunc',(SM,'''	for i, conn := range cm.Connections {
		if conn.ID == ID && conn.VendorID == vendorID && conn.OriginatorSerialNumber == originatorSerialNumber {
			conn.Open = false
			cm.Connections = append(cm.Connections[:i], cm.Connections[i+1:]...)
			return nil
		}
	}
	return fmt''','''	i := slices.IndexFunc(cm.Connections, func(conn *serverConnection) bool {
		return conn.ID == ID && conn.VendorID == vendorID && conn.OriginatorSerialNumber == originatorSerialNumber
	})
	if i >= 0 {
		cm.Connections[i].Open = false
		cm.Connections = slices.Delete(cm.Connections, i, i+1)
		return nil
	}
	return fmt'''),(SM,'"math/rand"\n','"math/rand"\n	"slices"\n'))
ok('r-conns-deletefunc',(SM,'''	kept := make([]*serverConnection, 0, len(cm.Connections))
	for _, conn := range cm.Connections {
		if conn.owner == owner {
			conn.Open = false
			continue
		}
		kept = append(kept, conn)
	}
	cm.Connections = kept
''','''	cm.Connections = slices.DeleteFunc(cm.Connections, func(conn *serverConnection) bool {
		if conn.owner != owner {
			return false
		}
		conn.Open = false
		return true
	})
'''),(SM,'"math/rand"\n','"math/rand"\n	"slices"\n'))
ok('r-tagread-elem',(RT,'''		if t.Kind() != reflect.Slice {
			return nil, fmt.Errorf("tag %v: element access on non-slice (%T)", tag, val)
		}
		if elemIdx < 0 || elemIdx >= t.Len() {
			return nil, fmt.Errorf("tag %v: element index %d out of range [0..%d)", tag, elemIdx, t.Len())
		}
		// Read a contiguous slice starting at elemIdx for `qty` elements,
		// matching how CIP Read Tag handles array element addressing.
		end := elemIdx + int(qty)
		if end > t.Len() {
			return nil, fmt.Errorf("tag %v: requested %d elements from index %d but array has %d total", tag, qty, elemIdx, t.Len())
		}
		if qty == 1 {
			return t.Index(elemIdx).Interface(), nil
		}
		return copySlice(t.Slice(elemIdx, end)), nil
	}
''','''		return readElements(tag, t, elemIdx, int(qty))
	}
'''),(RT,'''// copySlice returns''','''// readElements reads a contiguous slice starting at an element.
func readElements(tag string, t reflect.Value, first, qty int) (any, error) {
	if t.Kind() != reflect.Slice {
		return nil, fmt.Errorf("tag %v: element access on non-slice (%v)", tag, t.Type())
	}
	total := t.Len()
	switch {
	case first < 0 || first >= total:
		return nil, fmt.Errorf("tag %v: element index %d out of range [0..%d)", tag, first, total)
	case first+qty > total:
		return nil, fmt.Errorf("tag %v: requested %d elements from index %d but array has %d total", tag, qty, first, total)
	case qty == 1:
		return t.Index(first).Interface(), nil
	}
	return copySlice(t.Slice(first, first+qty)), nil
}

// copySlice returns'''))
ok('r-send-fail',(SR,'''	err = client.sendData(buffer)
	if err != nil {
		client.mutex.Unlock()
		err2 := client.Disconnect()
		if err2 != nil {
			return eipHeader{}, nil, fmt.Errorf("error disconnecting after send error %w: %w", err, err2)
		}
		return eipHeader{}, nil, fmt.Errorf("error sending data resulting in forced disconnect: %w", err)
	}

	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
	if err != nil {
		err2 := client.Disconnect()
		if err2 != nil {
			return hdr, buf, fmt.Errorf("error disconnecting after recvError %w: %w", err, err2)
		}
		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w", err)
	}
	return hdr, buf, nil
}
''','''	err = client.sendData(buffer)
	if err != nil {
		client.mutex.Unlock()
		return eipHeader{}, nil, client.dropConnection("sending", err)
	}

	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
	if err != nil {
		return hdr, buf, client.dropConnection("receiving", err)
	}
	return hdr, buf, nil
}

// dropConnection disconnects after a failed exchange.
func (client *Client) dropConnection(doing string, err error) error {
	if err2 := client.Disconnect(); err2 != nil {
		return fmt.Errorf("error disconnecting after error %s %w: %w", doing, err, err2)
	}
	return fmt.Errorf("error %s data resulting in forced disconnect: %w", doing, err)
}
'''))
ok('r-send-locked',(SR,'''	client.mutex.Lock()
	if client.conn == nil {
		client.mutex.Unlock()
		return eipHeader{}, nil, errors.New("client has never been connected")
	}
	buffer, err := client.sendMsgBuild(cmd, msgs...)
	if err != nil {
		client.mutex.Unlock()
		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
	}

	err = client.sendData(buffer)
	if err != nil {
		client.mutex.Unlock()
		err2 := client.Disconnect()
		if err2 != nil {
			return eipHeader{}, nil, fmt.Errorf("error disconnecting after send error %w: %w", err, err2)
		}
		return eipHeader{}, nil, fmt.Errorf("error sending data resulting in forced disconnect: %w", err)
	}

	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
	if err != nil {
		err2 := client.Disconnect()
		if err2 != nil {
			return hdr, buf, fmt.Errorf("error disconnecting after recvError %w: %w", err, err2)
		}
		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w", err)
	}
	return hdr, buf, nil
}
''','''	hdr, buf, broken, err := client.exchange(cmd, msgs...)
	if err == nil {
		return hdr, buf, nil
	}
	if !broken {
		return hdr, buf, err
	}
	if err2 := client.Disconnect(); err2 != nil {
		return hdr, buf, fmt.Errorf("error disconnecting after %w: %w", err, err2)
	}
	return hdr, buf, fmt.Errorf("forced disconnect: %w", err)
}

// exchange sends a message and reads the answer; broken tells that the connection is unusable afterwards.
func (client *Client) exchange(cmd CIPCommand, msgs ...any) (hdr eipHeader, buf *bytes.Buffer, broken bool, err error) {
	client.mutex.Lock()
	defer client.mutex.Unlock()
	if client.conn == nil {
		return hdr, nil, false, errors.New("client has never been connected")
	}
	buffer, err := client.sendMsgBuild(cmd, msgs...)
	if err != nil {
		return hdr, nil, false, fmt.Errorf("error preparing to send message: %w", err)
	}
	if err = client.sendData(buffer); err != nil {
		return hdr, nil, true, fmt.Errorf("error sending data: %w", err)
	}
	hdr, buf, err = client.recvData()
	if err != nil {
		return hdr, buf, true, fmt.Errorf("error receiving data: %w", err)
	}
	return hdr, buf, false, nil
}
'''))
ok('r-timeout-func',(SR,'''		if client.SocketTimeout != 0 {
			err := client.conn.SetWriteDeadline(time.Now().Add(client.SocketTimeout))
			if err != nil {
				return fmt.Errorf("problem setting write deadline: %w", err)
			}
		} else {
			err := client.conn.SetWriteDeadline(time.Now().Add(time.Second))
			if err != nil {
				return fmt.Errorf("problem setting write deadline: %w", err)
			}
		}
''','''		if err := client.conn.SetWriteDeadline(client.deadline()); err != nil {
			return fmt.Errorf("problem setting write deadline: %w", err)
		}
'''),(SR,'''func (client *Client) DebugCloseConn() {''','''// deadline is when an exchange that starts now times out.
func (client *Client) deadline() time.Time {
	timeout := client.SocketTimeout
	if timeout == 0 {
		timeout = time.Second
	}
	return time.Now().Add(timeout)
}

func (client *Client) DebugCloseConn() {'''))
ok('r-connect-defaults',(CN,'''	if client.ConnectionSize == 0 {
		client.ConnectionSize = connSizeLargeDefault
	}

	if client.Controller.Port == 0 {
		client.Controller.Port = portDefault
	}
	if client.Controller.VendorId == 0 {
		client.Controller.VendorId = vendorIdDefault
	}
	if client.SocketTimeout == 0 {
		client.SocketTimeout = socketTimeoutDefault
	}
	if client.RPI == 0 {
		client.RPI = rpiDefault
	}
	client.sequenceNumber''','''	client.applyDefaults()
	client.sequenceNumber'''),(CN,'''func (client *Client) Connected() bool {''','''// applyDefaults fills in what was not configured.
func (client *Client) applyDefaults() {
	if client.ConnectionSize == 0 {
		client.ConnectionSize = connSizeLargeDefault
	}
	if client.Controller.Port == 0 {
		client.Controller.Port = portDefault
	}
	if client.Controller.VendorId == 0 {
		client.Controller.VendorId = vendorIdDefault
	}
	if client.SocketTimeout == 0 {
		client.SocketTimeout = socketTimeoutDefault
	}
	if client.RPI == 0 {
		client.RPI = rpiDefault
	}
}

func (client *Client) Connected() bool {'''))
ok('r-connect-open',(CN,'''	if client.ConnectionSize > connSizeStandardMax {
		item, err := client.newForwardOpenLarge()
		if err != nil {
			return err
		}
		answered, err := client.forwardOpen(item)
		if err != nil && !answered {
			// the reply to this request may still arrive, so nothing else can be sent on this socket.
			client.Logger.Error("unable to open connection", slog.Any("err", err))
			return err
		}
		if err != nil {
			client.Logger.Warn("Large forward open failed. Not all devices support this.  Falling back to standard forward open", slog.Any("err", err))
			client.ConnectionSize = connSizeStandardDefault
		}
	}
	if client.ConnectionSize <= connSizeStandardMax {
		item, err := client.newForwardOpenStandard()
		if err != nil {
			return err
		}
		_, err = client.forwardOpen(item)
		if err != nil {
			client.Logger.Error("unable to open connection", slog.Any("err", err))
			return err
		}
	}

	success = true
''','''	err = client.openConnection()
	if err != nil {
		return err
	}

	success = true
'''),(CN,'''func (client *Client) Connected() bool {''','''// openConnection opens the connected transport, as large as the device takes it.
func (client *Client) openConnection() error {
	if client.ConnectionSize > connSizeStandardMax {
		item, err := client.newForwardOpenLarge()
		if err != nil {
			return err
		}
		answered, err := client.forwardOpen(item)
		if err == nil {
			return nil
		}
		if !answered {
			// the reply to this request may still arrive, so nothing else can be sent on this socket.
			client.Logger.Error("unable to open connection", slog.Any("err", err))
			return err
		}
		client.Logger.Warn("Large forward open failed. Not all devices support this.  Falling back to standard forward open", slog.Any("err", err))
		client.ConnectionSize = connSizeStandardDefault
	}
	item, err := client.newForwardOpenStandard()
	if err != nil {
		return err
	}
	_, err = client.forwardOpen(item)
	if err != nil {
		client.Logger.Error("unable to open connection", slog.Any("err", err))
	}
	return err
}

func (client *Client) Connected() bool {'''))
ok('r-connect-status',(CN,'''		if !success {
			if conn != nil {
				conn.Close()
			}
			client.mutex.Lock()
			client.connStatus = connectionStatusDisconnected
			client.mutex.Unlock()
		}
		if success {
			client.mutex.Lock()
			client.connStatus = connectionStatusConnected
			client.mutex.Unlock()
		}
''','''		status := connectionStatusConnected
		if !success {
			if conn != nil {
				conn.Close()
			}
			status = connectionStatusDisconnected
		}
		client.mutex.Lock()
		defer client.mutex.Unlock()
		client.connStatus = status
'''))
ok('r-start-ifs',(CN,'''	switch client.connStatus {
	case connectionStatusConnected:
		return fmt.Errorf("already connected")
	case connectionStatusConnecting:
		return fmt.Errorf("connection is already in progress")
	case connectionStatusDisconnecting:
		return fmt.Errorf("connection is currently disconnecting")
	case connectionStatusDisconnected:
		client.connStatus = connectionStatusConnecting
		return nil
	default:
		return fmt.Errorf("unknown connection status: %d", client.connStatus)
	}
''','''	if client.connStatus != connectionStatusDisconnected {
		return fmt.Errorf("can't connect now. status: %d", client.connStatus)
	}
	client.connStatus = connectionStatusConnecting
	return nil
'''))
ok('r-build-size',(SR,'''	messageLen := 0
	for _, msg := range msgs {
		size := binary.Size(msg)
		if size < 0 {
			return nil, fmt.Errorf("can't send a %T", msg)
		}
		messageLen += size
	}
	if messageLen''','''	messageLen, err := sizeOf(msgs)
	if err != nil {
		return nil, err
	}
	if messageLen'''),(SR,'''	err := binary.Write(buf, binary.LittleEndian, hdr)
	if err != nil {
		return nil, fmt.Errorf("problem writing header''','''	err = binary.Write(buf, binary.LittleEndian, hdr)
	if err != nil {
		return nil, fmt.Errorf("problem writing header'''),(SR,'''func (client *Client) DebugCloseConn() {''','''// sizeOf is the number of bytes the parts of a message take.
func sizeOf(msgs []any) (total int, err error) {
	for i := 0; i < len(msgs); i++ {
		n := binary.Size(msgs[i])
		if n < 0 {
			return 0, fmt.Errorf("can't send a %T", msgs[i])
		}
		total += n
	}
	return total, nil
}

func (client *Client) DebugCloseConn() {'''))
bad('r33-find-to','C33',(SV,'h.server.ConnMgr.GetByOT(connId)','h.server.ConnMgr.find(func(c *serverConnection) bool { return c.TO == connId })'),(SM,'''// closeOwnedBy closes''','''func (cm *serverConnectionManager) find(match func(*serverConnection) bool) (*serverConnection, error) {
	cm.Lock.RLock()
	defer cm.Lock.RUnlock()
	for _, conn := range cm.Connections {
		if match(conn) {
			return conn, nil
		}
	}
	return nil, fmt.Errorf("no such connection")
}

// closeOwnedBy closes'''))
ok('r-find-direct',(SV,'h.server.ConnMgr.GetByOT(connId)','h.server.ConnMgr.find(func(c *serverConnection) bool { return c.OT == connId })'),(SM,'''// closeOwnedBy closes''','''func (cm *serverConnectionManager) find(match func(*serverConnection) bool) (*serverConnection, error) {
	cm.Lock.RLock()
	defer cm.Lock.RUnlock()
	for _, conn := range cm.Connections {
		if match(conn) {
			return conn, nil
		}
	}
	return nil, fmt.Errorf("no such connection")
}

// closeOwnedBy closes'''))
bad('r24-deletefunc','C24',(SM,'''	kept := make([]*serverConnection, 0, len(cm.Connections))
	for _, conn := range cm.Connections {
		if conn.owner == owner {
			conn.Open = false
			continue
		}
		kept = append(kept, conn)
	}
	cm.Connections = kept
''','''	cm.Connections = slices.DeleteFunc(cm.Connections, func(conn *serverConnection) bool {
		return conn.owner == owner
	})
'''),(SM,'"math/rand"\n','"math/rand"\n	"slices"\n'))
ok('r-conns-two-loops',(SM,'''	kept := make([]*serverConnection, 0, len(cm.Connections))
	for _, conn := range cm.Connections {
		if conn.owner == owner {
			conn.Open = false
			continue
		}
		kept = append(kept, conn)
	}
	cm.Connections = kept
''','''	for _, conn := range cm.Connections {
		if conn.owner == owner {
			conn.Open = false
		}
	}
	cm.Connections = slices.DeleteFunc(cm.Connections, func(conn *serverConnection) bool {
		return conn.owner == owner
	})
'''),(SM,'"math/rand"\n','"math/rand"\n	"slices"\n'))
# refactorings, round s
IT='items.go'; GA='getattr.go'; LS='listsubtags.go'; TG='taggroup.go'
tail_w='''	itemdata, err := serializeItems(reqitems)
	if err != nil {
		return err
	}
	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
	if err != nil {
		return err
	}
	if hdr.Status != 0 {
		return fmt.Errorf("got non-success status %d when writing", hdr.Status)
	}
	read_result_header := msgCIPResultHeader{}
	err = binary.Read(data, binary.LittleEndian, &read_result_header)
	if err != nil {
		client.Logger.Warn("Problem reading read result header", "error", err)
		return fmt.Errorf("problem reading result header: %w", err)
	}
	items, err := readItems(data)
	if err != nil {
		return fmt.Errorf("problem reading items from write, %w", err)
	}
	if len(items) < 2 {
		return fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
	}
	var hdr2 msgWriteResultHeader
	err = items[1].DeSerialize(&hdr2)
	if err != nil {
		return fmt.Errorf("problem deserializing write response header, %w", err)
	}
	if hdr2.Status != CIPStatus_OK {
		extended := uint16(0)
		if hdr2.StatusExtended == 1 {
			err = items[1].DeSerialize(&extended)
			return fmt.Errorf("got status %d:%d:%d instead of 0 in write response.  Problem getting extended status %w",
				hdr2.Status,
				hdr2.StatusExtended,
				extended,
				err)

		}
		return fmt.Errorf("got status %d:%d:%d instead of 0 in write response", hdr2.Status, hdr2.StatusExtended, extended)
	}
	return err
}
'''
ok('s-write-tail',(WR,tail_w,'	return client.sendWrite(reqitems)\n}\n'),(WR,tail_w,'''	return client.sendWrite(reqitems)
}

// sendWrite sends a write request and checks the answer.
func (client *Client) sendWrite(reqitems []CIPItem) error {
'''+tail_w))
ok('s-write-status',(WR,tail_w,tail_w.replace('''	if hdr2.Status != CIPStatus_OK {
		extended := uint16(0)
		if hdr2.StatusExtended == 1 {
			err = items[1].DeSerialize(&extended)
			return fmt.Errorf("got status %d:%d:%d instead of 0 in write response.  Problem getting extended status %w",
				hdr2.Status,
				hdr2.StatusExtended,
				extended,
				err)

		}
		return fmt.Errorf("got status %d:%d:%d instead of 0 in write response", hdr2.Status, hdr2.StatusExtended, extended)
	}
	return err
}
''','''	if hdr2.Status == CIPStatus_OK {
		return nil
	}
	extended := uint16(0)
	if hdr2.StatusExtended == 1 {
		if err := items[1].DeSerialize(&extended); err != nil {
			return fmt.Errorf("got status %d:%d in write response. Problem getting extended status %w", hdr2.Status, hdr2.StatusExtended, err)
		}
	}
	return fmt.Errorf("got status %d:%d:%d instead of 0 in write response", hdr2.Status, hdr2.StatusExtended, extended)
}
''')))
ok('s-write-serialize-many',(WR,'''	err = reqitems[1].Serialize(ioi_header)
	if err != nil {
		return fmt.Errorf("problem serializing ioi header. %w", err)
	}

	err = reqitems[1].Serialize(ioi.Buffer)
	if err != nil {
		return fmt.Errorf("problem serializing ioi buffer. %w", err)
	}

	err = reqitems[1].Serialize(ioi_footer)
	if err != nil {
		return fmt.Errorf("problem serializing ioi footer. %w", err)
	}

	err = reqitems[1].Serialize(value)
	if err != nil {
		return fmt.Errorf("problem serializing value. %w", err)
	}
''','''	err = reqitems[1].Serialize(ioi_header, ioi.Buffer, ioi_footer, value)
	if err != nil {
		return fmt.Errorf("problem serializing write request. %w", err)
	}
'''))
ok('s-write-parts-loop',(WR,'''	err = reqitems[1].Serialize(ioi_header)
	if err != nil {
		return fmt.Errorf("problem serializing ioi header. %w", err)
	}

	err = reqitems[1].Serialize(ioi.Buffer)
	if err != nil {
		return fmt.Errorf("problem serializing ioi buffer. %w", err)
	}

	err = reqitems[1].Serialize(ioi_footer)
	if err != nil {
		return fmt.Errorf("problem serializing ioi footer. %w", err)
	}

	err = reqitems[1].Serialize(value)
	if err != nil {
		return fmt.Errorf("problem serializing value. %w", err)
	}
''','''	for _, part := range []any{ioi_header, ioi.Buffer, ioi_footer, value} {
		err = reqitems[1].Serialize(part)
		if err != nil {
			return fmt.Errorf("problem serializing %T. %w", part, err)
		}
	}
'''))
gtail='''	read_result_header := msgCIPResultHeader{}
	err = binary.Read(data, binary.LittleEndian, &read_result_header)
	if err != nil {
		client.Logger.Warn("Problem reading read result header.", "error", err)
		return nil, fmt.Errorf("problem reading result header: %w", err)
	}
	items, err := readItems(data)
	if err != nil {
		client.Logger.Warn("Problem reading items.", "error", err)
		return nil, err
	}
	if len(items) < 2 {
		return nil, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
	}

	var resphdr cipAttributeResponseHdr
	err = items[1].DeSerialize(&resphdr)
	if err != nil {
		return nil, fmt.Errorf("couldn't read response header. %w", err)
	}
	if resphdr.Status != uint16(CIPStatus_OK) {
		return &items[1], fmt.Errorf("response header has status 0x%X (%v)", resphdr.Status, CIPStatus(resphdr.Status))
	}
	//dat := make([]byte, hdr.Length-26)
	//items[1].DeSerialize(&dat)
	return &items[1], nil
}
'''
ok('s-attr-reply',(GA,gtail,'''	return client.attrReply(data)
}

// attrReply takes the data item out of an answer to a request for attributes.
func (client *Client) attrReply(data *bytes.Buffer) (*CIPItem, error) {
	read_result_header := msgCIPResultHeader{}
	err := binary.Read(data, binary.LittleEndian, &read_result_header)
	if err != nil {
		client.Logger.Warn("Problem reading read result header.", "error", err)
		return nil, fmt.Errorf("problem reading result header: %w", err)
	}
	items, err := readItems(data)
	if err != nil {
		client.Logger.Warn("Problem reading items.", "error", err)
		return nil, err
	}
	if len(items) < 2 {
		return nil, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
	}
	item := &items[1]
	var resphdr cipAttributeResponseHdr
	if err := item.DeSerialize(&resphdr); err != nil {
		return nil, fmt.Errorf("couldn't read response header. %w", err)
	}
	if status := CIPStatus(resphdr.Status); resphdr.Status != uint16(CIPStatus_OK) {
		return item, fmt.Errorf("response header has status 0x%X (%v)", resphdr.Status, status)
	}
	return item, nil
}
'''),(GA,'import (\n','import (\n	"bytes"\n'))
ok('s-items-take',(IT,'''	if len(item.Data) <= item.Pos+1 {
		return 0, fmt.Errorf("item out of data")
	}
	val := binary.LittleEndian.Uint16(item.Data[item.Pos:])
	item.Pos += 2
	return val, nil
''','''	b, err := item.take(2)
	if err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint16(b), nil
'''),(IT,'''	if len(item.Data) <= item.Pos+1 {
		return 0, fmt.Errorf("item out of data")
	}
	val := binary.LittleEndian.Uint16(item.Data[item.Pos:])
	item.Pos += 2
	return int16(val), nil
''','''	val, err := item.Uint16()
	return int16(val), err
'''),(IT,'''	if len(item.Data) <= item.Pos+3 {
		return 0, fmt.Errorf("item out of data")
	}
	val := binary.LittleEndian.Uint32(item.Data[item.Pos:])
	item.Pos += 4
	return val, nil
''','''	b, err := item.take(4)
	if err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint32(b), nil
'''),(IT,'''func (item *CIPItem) DeSerialize(str''','''// take moves past the next n bytes.
func (item *CIPItem) take(n int) ([]byte, error) {
	if len(item.Data)-item.Pos < n {
		return nil, fmt.Errorf("item out of data")
	}
	b := item.Data[item.Pos : item.Pos+n]
	item.Pos += n
	return b, nil
}

func (item *CIPItem) DeSerialize(str'''))
ok('s-items-str',(IT,'''			strLen := uint32(len(x))
			if strLen > 84 {
				strLen = 84
			}
			err := binary.Write(item, binary.LittleEndian, strLen)
			if err != nil {
				return fmt.Errorf("problem writing string header: %v", err)
			}
			b := make([]byte, 84)
			copy(b, x)
			err = binary.Write(item, binary.LittleEndian, b)
			if err != nil {
				return fmt.Errorf("problem writing string payload: %v", err)
			}
''','''			if err := item.writeString(x); err != nil {
				return err
			}
'''),(IT,'''				strLen := uint32(len(s))
				if strLen > 84 {
					strLen = 84
				}
				if err := binary.Write(item, binary.LittleEndian, strLen); err != nil {
					return fmt.Errorf("problem writing string header: %v", err)
				}
				b := make([]byte, 84)
				copy(b, s)
				if err := binary.Write(item, binary.LittleEndian, b); err != nil {
					return fmt.Errorf("problem writing string payload: %v", err)
				}
''','''				if err := item.writeString(s); err != nil {
					return err
				}
'''),(IT,'''func (item *CIPItem) DeSerialize(str''','''const stringSlot = 84

// writeString adds a STRING slot.
func (item *CIPItem) writeString(s string) error {
	var slot struct {
		Len  uint32
		Data [stringSlot]byte
	}
	slot.Len = uint32(copy(slot.Data[:], s))
	if err := binary.Write(item, binary.LittleEndian, slot); err != nil {
		return fmt.Errorf("problem writing string: %v", err)
	}
	return nil
}

func (item *CIPItem) DeSerialize(str'''))
ok('s-serialize-switch',(IT,'''	for i, item := range items {
		b2, err := item.Bytes()
		if err != nil {
			return nil, fmt.Errorf("problem byte-ing item %d: %w", i, err)
		}
		b.Write(b2)
	}

	out := b.Bytes()

	return &out, nil
''','''	for i := range items {
		if err := appendItem(b, &items[i]); err != nil {
			return nil, fmt.Errorf("problem byte-ing item %d: %w", i, err)
		}
	}

	out := b.Bytes()

	return &out, nil
'''),(IT,'''func (item *CIPItem) DeSerialize(str''','''func appendItem(b *bytes.Buffer, item *CIPItem) error {
	bs, err := item.Bytes()
	if err != nil {
		return err
	}
	_, err = b.Write(bs)
	return err
}

func (item *CIPItem) DeSerialize(str'''))
ok('s-subtags-dims',(LS,'''		if tag_ftr.Dimension3 != 0 {
			kt.Array_Order = make([]int, 3)
			kt.Array_Order[2] = int(tag_ftr.Dimension3)
			kt.Array_Order[1] = int(tag_ftr.Dimension2)
			kt.Array_Order[0] = int(tag_ftr.Dimension1)
		} else if tag_ftr.Dimension2 != 0 {
			kt.Array_Order = make([]int, 2)
			kt.Array_Order[1] = int(tag_ftr.Dimension2)
			kt.Array_Order[0] = int(tag_ftr.Dimension1)
		} else if tag_ftr.Dimension1 != 0 {
			kt.Array_Order = make([]int, 1)
			kt.Array_Order[0] = int(tag_ftr.Dimension1)
		} else {
			kt.Array_Order = make([]int, 0)
		}
''','''		kt.Array_Order = arrayOrder(tag_ftr)
'''),(LS,'''func (client *Client) ListSubTags(''','''func arrayOrder(info *TagInfo) []int {
	dims := []int{int(info.Dimension1), int(info.Dimension2), int(info.Dimension3)}
	for len(dims) > 0 && dims[len(dims)-1] == 0 {
		dims = dims[:len(dims)-1]
	}
	return dims
}

func (client *Client) ListSubTags('''))
ok('s-subtags-entry',(LS,'''		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
		if err != nil {
			return nil, fmt.Errorf("problem reading tag header. %w", err)
		}
		last_instance = tag_hdr.InstanceID
		newtag_bytes := make([]byte, tag_hdr.NameLength)
		err = binary.Read(data2, binary.LittleEndian, &newtag_bytes)
		if err != nil {
			return nil, fmt.Errorf("problem reading tag header. %w", err)
		}
		newtag_name''','''		newtag_bytes, err := readTagName(data2, tag_hdr)
		if err != nil {
			return nil, fmt.Errorf("problem reading tag header. %w", err)
		}
		last_instance = tag_hdr.InstanceID
		newtag_name'''),(LS,'''func (client *Client) ListSubTags(''','''func readTagName(r *bytes.Buffer, hdr *msgtagResultDataHeader) ([]byte, error) {
	if err := binary.Read(r, binary.LittleEndian, hdr); err != nil {
		return nil, err
	}
	name := make([]byte, hdr.NameLength)
	if err := binary.Read(r, binary.LittleEndian, name); err != nil {
		return nil, err
	}
	return name, nil
}

func (client *Client) ListSubTags('''))
ok('s-subtags-early',(LS,'''	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
		next_instance := last_instance + 1
		if next_instance <= start_instance {
			return new_kts, fmt.Errorf("no new tags in partial response from instance %d", start_instance)
		}
		more_kts, err := client.ListSubTags(Program, next_instance)
		new_kts = append(new_kts, more_kts...)
		if err != nil {
			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
		}
	}

	return new_kts, nil
''','''	if data_hdr.Status == uint16(CIPStatus_OK) {
		return new_kts, nil
	}
	if last_instance+1 <= start_instance {
		return new_kts, fmt.Errorf("no new tags in partial response from instance %d", start_instance)
	}
	more, err := client.ListSubTags(Program, last_instance+1)
	if err != nil {
		return append(new_kts, more...), fmt.Errorf("problem listing subtags. %w", err)
	}
	return append(new_kts, more...), nil
'''))
ok('s-expand',(TG,'''		indices := make([]string, len(tag.Array_Order))
		for d := 0; d < lastDim; d++ {
			indices[d] = fmt.Sprintf("%d", tag.Array_Order[d])
		}
		indices[lastDim] = fmt.Sprintf("%d", baseIndex+i)
		result[i] = fmt.Sprintf("%s[%s]", prefix, strings.Join(indices, ","))
''','''		indices := make([]string, 0, lastDim+1)
		for _, n := range tag.Array_Order[:lastDim] {
			indices = append(indices, fmt.Sprint(n))
		}
		indices = append(indices, fmt.Sprint(baseIndex+i))
		result[i] = prefix + "[" + strings.Join(indices, ",") + "]"
'''))
ok('s-result-generic',(TG,'''	v, ok := r.values[name]
	if !ok {
		return 0, fmt.Errorf("tag %q not found in result", name)
	}
	i, ok := v.(int16)
	if !ok {
		return 0, fmt.Errorf("tag %q is %T, not int16", name, v)
	}
	return i, nil
''','''	return resultAs[int16](r, name)
'''),(TG,'''// Raw returns''','''func resultAs[T any](r *TagGroupResult, name string) (T, error) {
	var zero T
	v, err := r.Value(name)
	if err != nil {
		return zero, err
	}
	if t, ok := v.(T); ok {
		return t, nil
	}
	return zero, fmt.Errorf("tag %q is %T, not %T", name, v, zero)
}

// Raw returns'''))

# ---- round t: server requests, paths, io provider, reads
ok('t-writetag',(SC,'''	if qty > 1 {
		err = p.TagWrite(tag, results)
		if err != nil {
			return fmt.Errorf("problem writing tag %v. %w", tag, err)
		}
	} else {
		err = p.TagWrite(tag, results[0])
		if err != nil {
			return fmt.Errorf("problem writing tag %v. %w", tag, err)
		}
	}

	// path is part''','''	if err = writeTag(p, tag, results); err != nil {
		return err
	}

	// path is part'''),(SC,'''	qty := uint16(len(results))
	h.server''','''	h.server'''),(SU,'''	if qty > 1 {
		err = p.TagWrite(tag, results)
		if err != nil {
			return fmt.Errorf("problem writing tag %v. %w", tag, err)
		}
	} else {
		err = p.TagWrite(tag, results[0])
		if err != nil {
			return fmt.Errorf("problem writing tag %v. %w", tag, err)
		}
	}
''','''	if err := writeTag(p, tag, results); err != nil {
		return err
	}
'''),(SU,'''	qty := uint16(len(results))
''',''),(SC,'''func (h *serverTCPHandler) connectedMulti(''','''// writeTag hands the values of a write request to the provider: a single value on its own, several as a slice.
func writeTag(p CIPEndpoint, tag string, values []any) error {
	var value any = values
	if len(values) == 1 {
		value = values[0]
	}
	if err := p.TagWrite(tag, value); err != nil {
		return fmt.Errorf("problem writing tag %v. %w", tag, err)
	}
	return nil
}

func (h *serverTCPHandler) connectedMulti('''))
ok('t-conn-lookup',(SC,'''	items[0].Reset()
	var connID uint32
	err := items[0].DeSerialize(&connID)
	if err != nil {
		return fmt.Errorf("couldn't get connection ID from item 0: %w", err)
	}
	connection, err := h.server.ConnMgr.GetByOT(connID)
	if err != nil {
		return fmt.Errorf("couldn't get connection with ID %v: %w", connID, err)
	}

	path := connection.Path

	provider, err := h.server.Router.Resolve(path)
	if err != nil {
		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
	}
	p := provider
''','''	connection, p, err := h.connectionAndProvider(items)
	if err != nil {
		return err
	}
'''),(SC,'''	items[0].Reset()
	var connID uint32
	err := items[0].DeSerialize(&connID)
	if err != nil {
		return fmt.Errorf("couldn't get connection ID from item 0: %w", err)
	}
	connection, err := h.server.ConnMgr.GetByOT(connID)
	if err != nil {
		return fmt.Errorf("couldn't get connection with ID %v: %w", connID, err)
	}

	items[1].Reset()
	return h.getAttr''','''	connection, err := h.connection(items)
	if err != nil {
		return err
	}

	items[1].Reset()
	return h.getAttr'''),(SC,'''func (h *serverTCPHandler) connectedMulti(''','''// connection finds the connection that the address item of a request names.
func (h *serverTCPHandler) connection(items []CIPItem) (*serverConnection, error) {
	items[0].Reset()
	var connID uint32
	if err := items[0].DeSerialize(&connID); err != nil {
		return nil, fmt.Errorf("couldn't get connection ID from item 0: %w", err)
	}
	c, err := h.server.ConnMgr.GetByOT(connID)
	if err != nil {
		return nil, fmt.Errorf("couldn't get connection with ID %v: %w", connID, err)
	}
	return c, nil
}

func (h *serverTCPHandler) connectionAndProvider(items []CIPItem) (*serverConnection, CIPEndpoint, error) {
	c, err := h.connection(items)
	if err != nil {
		return nil, nil, err
	}
	p, err := h.server.Router.Resolve(c.Path)
	if err != nil {
		return nil, nil, fmt.Errorf("problem finding tag provider for %v. %w", c.Path, err)
	}
	return c, p, nil
}

func (h *serverTCPHandler) connectedMulti('''))
ok('t-multi-read',(SC,'''			// build this portion of the response msg

			typ, _ := GoVarToCIPType(result)
			rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
			b, err := Serialize(rhdr)
			if err != nil {
				return fmt.Errorf("problem serializing header for %s: %w", tagname, err)
			}
			if typ == CIPTypeSTRING {
				res_str, ok := result.(string)
				if !ok {
					return errors.New("expected a string but didn't get one")
				}
				b_dat, err := Serialize(cipStringPacker(res_str))
				if err != nil {
					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
				}
				b.Truncate(4)
				_, err = b_dat.WriteTo(b)
				if err != nil {
					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
				}
			} else {
				b_dat, err := Serialize(result)
				if err != nil {
					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
				}
				_, err = b_dat.WriteTo(b)
				if err != nil {
					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
				}
			}

			results[i] = b.Bytes()
''','''			results[i], err = multiReadReply(svc, tagname, result)
			if err != nil {
				return err
			}
'''),(SC,'''func (h *serverTCPHandler) connectedMulti(''','''// multiReadReply builds the part of a multi service reply that holds the value of one tag.
func multiReadReply(svc CIPService, tagname string, value any) ([]byte, error) {
	typ, _ := GoVarToCIPType(value)
	b, err := Serialize(msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ})
	if err != nil {
		return nil, fmt.Errorf("problem serializing header for %s: %w", tagname, err)
	}
	if typ == CIPTypeSTRING {
		s, ok := value.(string)
		if !ok {
			return nil, errors.New("expected a string but didn't get one")
		}
		b.Truncate(4)
		value = cipStringPacker(s)
	}
	data, err := Serialize(value)
	if err != nil {
		return nil, fmt.Errorf("problem serializing data for %s: %w", tagname, err)
	}
	if _, err = data.WriteTo(b); err != nil {
		return nil, fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
	}
	return b.Bytes(), nil
}

func (h *serverTCPHandler) connectedMulti('''))
ok('t-multi-write',(SC,'''			var typ CIPType
			err = item.DeSerialize(&typ)
			if err != nil {
				return fmt.Errorf("problem deserializing cip type %w", err)
			}
			var reserved byte
			err = item.DeSerialize(&reserved)
			if err != nil {
				return fmt.Errorf("problem deserializing reserved byte %w", err)
			}
			var qty uint16
			err = item.DeSerialize(&qty)
			if err != nil {
				return fmt.Errorf("problem deserializing element count %w", err)
			}

			if qty == 0 {
				return fmt.Errorf("no values to write for tag %s", tag)
			}
			writeTags := make([]any, qty)
			for i := 0; i < int(qty); i++ {
				writeTags[i], err = typ.readValue(&item)
				if err != nil {
					return fmt.Errorf("problem getting write element %d: %w", i, err)
				}
			}
			h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)

			if qty > 1 {
				err = p.TagWrite(tag, writeTags)
				if err != nil {
					return fmt.Errorf("problem writing tag %v. %w", tag, err)
				}
			} else {
				err = p.TagWrite(tag, writeTags[0])
				if err != nil {
					return fmt.Errorf("problem writing tag %v. %w", tag, err)
				}
			}
''','''			writeTags, err := multiWriteValues(&item)
			if err != nil {
				return fmt.Errorf("problem with values for tag %s: %w", tag, err)
			}
			h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)

			switch len(writeTags) {
			case 0:
				return fmt.Errorf("no values to write for tag %s", tag)
			case 1:
				err = p.TagWrite(tag, writeTags[0])
			default:
				err = p.TagWrite(tag, writeTags)
			}
			if err != nil {
				return fmt.Errorf("problem writing tag %v. %w", tag, err)
			}
'''),(SC,'''func (h *serverTCPHandler) connectedMulti(''','''// multiWriteValues reads the type, the number and the values of a write in a multi service request.
func multiWriteValues(item *CIPItem) ([]any, error) {
	var hdr struct {
		Type     CIPType
		Reserved byte
		Qty      uint16
	}
	if err := item.DeSerialize(&hdr); err != nil {
		return nil, fmt.Errorf("problem deserializing write header %w", err)
	}
	values := make([]any, 0, hdr.Qty)
	for len(values) < int(hdr.Qty) {
		v, err := hdr.Type.readValue(item)
		if err != nil {
			return nil, fmt.Errorf("problem getting write element %d: %w", len(values), err)
		}
		values = append(values, v)
	}
	return values, nil
}

func (h *serverTCPHandler) connectedMulti('''))
ok('t-multi-jump',(SC,'''	response := make([]any, len(results)+2)
	response[0] = qty

	pos := (int(qty) + 1) * 2
	jump_table := make([]uint16, qty)
	for i := range jump_table {
		if pos > math.MaxUint16 {
			return fmt.Errorf("the results of %d services do not fit in a reply", qty)
		}
		jump_table[i] = uint16(pos)
		pos += len(results[i])
	}
	response[1] = jump_table
	for i := range results {
		response[2+i] = results[i]
	}
''','''	response := make([]any, 0, len(results)+2)
	jump_table := make([]uint16, 0, len(results))
	pos := 2 + 2*len(results)
	for _, r := range results {
		if pos > math.MaxUint16 {
			return fmt.Errorf("the results of %d services do not fit in a reply", qty)
		}
		jump_table = append(jump_table, uint16(pos))
		pos += len(r)
	}
	response = append(response, qty, jump_table)
	for _, r := range results {
		response = append(response, r)
	}
'''))
ok('t-read-fail',(SC,'''	err = item.DeSerialize(&seq)
	if err != nil {
		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
		return fmt.Errorf("error getting sequence ID: %w / %v", err, err2)
	}
	var pathlen uint16
	err = item.DeSerialize(&pathlen)
	if err != nil {
		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
		return fmt.Errorf("error getting path len: %w / %v", err, err2)
	}
	tag, err := getTagFromPath(&item)
	if err != nil {
		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
	}
	var qty uint16
	err = item.DeSerialize(&qty)
	if err != nil {
		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
		return fmt.Errorf("error getting write qty: %w / %v", err, err2)
	}
''','''	fail := func(status CIPStatus, what string, err error) error {
		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, status, 0)
		return fmt.Errorf("%s: %w / %v", what, err, err2)
	}
	err = item.DeSerialize(&seq)
	if err != nil {
		return fail(CIPStatus_InvalidParameter, "error getting sequence ID", err)
	}
	var pathlen uint16
	err = item.DeSerialize(&pathlen)
	if err != nil {
		return fail(CIPStatus_InvalidParameter, "error getting path len", err)
	}
	tag, err := getTagFromPath(&item)
	if err != nil {
		return fail(CIPStatus_InvalidParameter, "couldn't parse path", err)
	}
	var qty uint16
	err = item.DeSerialize(&qty)
	if err != nil {
		return fail(CIPStatus_InvalidParameter, "error getting read qty", err)
	}
'''),(SC,'''	if err != nil {
		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
		return fmt.Errorf("problem getting data from provider. %w / %v", err, err2)
	}
''','''	if err != nil {
		return fail(CIPStatus_InvalidMemberID, "problem getting data from provider", err)
	}
'''))
ok('t-read-result',(SC,'''	typ, _ := GoVarToCIPType(result)

	if typ == CIPTypeSTRING {
		// Single''','''	return h.replyWithValue(reqSvc, seq, connection.TO, result)
}

// replyWithValue answers a read with the value of the tag.
func (h *serverTCPHandler) replyWithValue(reqSvc CIPService, seq uint16, to uint32, result any) error {
	typ, _ := GoVarToCIPType(result)

	if typ == CIPTypeSTRING {
		// Single'''),(SC,'''			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringPacker(res_str))''','''			return h.sendConnectedReply(reqSvc, seq, to, cipStringPacker(res_str))'''),(SC,'''			return h.sendConnectedReply(reqSvc, seq, connection.TO, payloads...)
		}
		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
		return fmt.Errorf("was expecting a string but didn't get one: %w", err2)
	} else {
		return h.sendConnectedReply(reqSvc, seq, connection.TO, typ, byte(0), result)
	}
''','''			return h.sendConnectedReply(reqSvc, seq, to, payloads...)
		}
		err2 := h.sendConnectedError(reqSvc, seq, to, CIPStatus_InvalidAttributeValue, 0)
		return fmt.Errorf("was expecting a string but didn't get one: %w", err2)
	}
	return h.sendConnectedReply(reqSvc, seq, to, typ, byte(0), result)
'''))
ok('t-read-result-switch',(SC,'''	typ, _ := GoVarToCIPType(result)

	if typ == CIPTypeSTRING {
		// Single STRING — the common case for atomic tag reads.
		if res_str, ok := result.(string); ok {
			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringPacker(res_str))
		}
''','''	typ, _ := GoVarToCIPType(result)

	if typ == CIPTypeSTRING {
		switch s := result.(type) {
		case string:
			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringPacker(s))
		}
'''))
ok('t-parse-write',(SC,'''	results := make([]any, qty)
	if typ == CIPTypeStruct {
		if structCRC != cipStringStructCRC {
			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
		}
		for i := 0; i < int(qty); i++ {
			var slen uint32
			if err := item.DeSerialize(&slen); err != nil {
				return nil, fmt.Errorf("error reading STRING LEN for element %d: %w", i, err)
			}
			data := make([]byte, cipStringDataLen)
			if err := item.DeSerialize(&data); err != nil {
				return nil, fmt.Errorf("error reading STRING DATA for element %d: %w", i, err)
			}
			if slen > cipStringDataLen {
				slen = cipStringDataLen
			}
			results[i] = string(data[:slen])
		}
		return results, nil
	}

	for i := 0; i < int(qty); i++ {
		val, err := typ.readValue(item)
		if err != nil {
			return nil, fmt.Errorf("error reading element %d: %w", i, err)
		}
		results[i] = val
	}
	return results, nil
''','''	read := func() (any, error) { return typ.readValue(item) }
	if typ == CIPTypeStruct {
		if structCRC != cipStringStructCRC {
			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
		}
		read = func() (any, error) { return readStringStruct(item) }
	}
	results := make([]any, qty)
	for i := range results {
		val, err := read()
		if err != nil {
			return nil, fmt.Errorf("error reading element %d: %w", i, err)
		}
		results[i] = val
	}
	return results, nil
'''),(SC,'''func (h *serverTCPHandler) sendConnectedReply(''','''// readStringStruct reads one STRING from a write request.
func readStringStruct(item *CIPItem) (string, error) {
	var slen uint32
	if err := item.DeSerialize(&slen); err != nil {
		return "", fmt.Errorf("error reading STRING LEN: %w", err)
	}
	data := make([]byte, cipStringDataLen)
	if err := item.DeSerialize(&data); err != nil {
		return "", fmt.Errorf("error reading STRING DATA: %w", err)
	}
	return string(data[:min(slen, cipStringDataLen)]), nil
}

func (h *serverTCPHandler) sendConnectedReply('''))
ok('t-send-connected',(SC,'''	items := make([]CIPItem, 2)
	items[0] = newItem(cipItem_ConnectionAddress, connID)
	items[1] = newItem(cipItem_ConnectedData, seq)
	resp := msgUnconnWriteResultHeader{
		Service: s.AsResponse(),
	}
	err := items[1].Serialize(resp)
	if err != nil {
		return fmt.Errorf("couldn't serialize error response: %w", err)
	}
	for i := range payload {
		err = items[1].Serialize(payload[i])
		if err != nil {
			return fmt.Errorf("problem serializing unconnected data payload. %w", err)
		}
	}
	itemdata, err := serializeItems(items)
	if err != nil {
		return fmt.Errorf("could not serialize items: %w", err)
	}
	return h.send(cipCommandSendUnitData, itemdata)
''','''	return h.sendConnected(seq, connID, msgUnconnWriteResultHeader{Service: s.AsResponse()}, payload...)
'''),(SC,'''	items := make([]CIPItem, 2)
	items[0] = newItem(cipItem_ConnectionAddress, connID)
	items[1] = newItem(cipItem_ConnectedData, seq)
	resp := msgUnconnWriteResultHeader{
		Service:        s.AsResponse(),
		Status:         status,
		StatusExtended: statusExtended,
	}
	err := items[1].Serialize(resp)
	if err != nil {
		return fmt.Errorf("couldn't serialize error response: %w", err)
	}
	itemdata, err := serializeItems(items)
	if err != nil {
		return fmt.Errorf("could not serialize items: %w", err)
	}
	return h.send(cipCommandSendUnitData, itemdata)
''','''	return h.sendConnected(seq, connID, msgUnconnWriteResultHeader{
		Service:        s.AsResponse(),
		Status:         status,
		StatusExtended: statusExtended,
	})
'''),(SC,'''func (h *serverTCPHandler) connectedGetAttr(''','''// sendConnected sends a reply on a connection: the sequence number, the header and the payload.
func (h *serverTCPHandler) sendConnected(seq uint16, connID uint32, resp msgUnconnWriteResultHeader, payload ...any) error {
	items := []CIPItem{
		newItem(cipItem_ConnectionAddress, connID),
		newItem(cipItem_ConnectedData, seq),
	}
	err := items[1].Serialize(append([]any{resp}, payload...)...)
	if err != nil {
		return fmt.Errorf("couldn't serialize response: %w", err)
	}
	itemdata, err := serializeItems(items)
	if err != nil {
		return fmt.Errorf("could not serialize items: %w", err)
	}
	return h.send(cipCommandSendUnitData, itemdata)
}

func (h *serverTCPHandler) connectedGetAttr('''))
ok('t-attr-path',(SC,'''	path_size, err := item.Byte()
	if err != nil {
		return fmt.Errorf("couldn't read data len: %w", err)
	}

	if path_size != 3 {
		return fmt.Errorf("currently only support getattrsingle path size of 3. got %d", path_size)
	}

	var cls CIPClass
	err = cls.Read(&item)
	if err != nil {
		return fmt.Errorf("could not read class: %w", err)
	}

	var inst CIPInstance
	err = inst.Read(&item)
	if err != nil {
		return fmt.Errorf("could not read instance: %w", err)
	}

	if cls != 1 || inst != 1 {
		return fmt.Errorf("only support class 1 instance 1 so far. got %d:%d", cls, inst)
	}

	var attr CIPAttribute
	err = attr.Read(&item)
	if err != nil {
		return fmt.Errorf("could not read attribute ID: %w", err)
	}
''','''	path_size, err := item.Byte()
	if err != nil {
		return fmt.Errorf("couldn't read data len: %w", err)
	}

	if path_size != 3 {
		return fmt.Errorf("currently only support getattrsingle path size of 3. got %d", path_size)
	}

	cls, inst, attr, err := readAttrPath(&item)
	if err != nil {
		return err
	}
	if cls != 1 || inst != 1 {
		return fmt.Errorf("only support class 1 instance 1 so far. got %d:%d", cls, inst)
	}
'''),(SC,'''func (h *serverTCPHandler) connectedGetAttr(''','''func readAttrPath(item *CIPItem) (cls CIPClass, inst CIPInstance, attr CIPAttribute, err error) {
	if err = cls.Read(item); err != nil {
		err = fmt.Errorf("could not read class: %w", err)
		return
	}
	if err = inst.Read(item); err != nil {
		err = fmt.Errorf("could not read instance: %w", err)
		return
	}
	if err = attr.Read(item); err != nil {
		err = fmt.Errorf("could not read attribute ID: %w", err)
	}
	return
}

func (h *serverTCPHandler) connectedGetAttr('''))
ok('t-uc-send',(SU,'''	case 0x52:
		// unconnected send?
		var pathsize byte''','''	case 0x52:
		return h.unconnectedSend(item)

	default:
		// Top-level service code that we don't recognize — same rule as the
		// embedded-service default above: reply with ServiceNotSupported
		// instead of silently dropping. Without this, FactoryTalk Linx
		// retries forever waiting for a response that never comes.
		h.server.Logger.Warn("unsupported unconnected service", "service", service)
		return h.sendUnconnectedErrorReply(service, CIPStatus_ServiceNotSupported)
	}
	return nil
}

// unconnectedSend handles the request that is embedded in an unconnected send.
func (h *serverTCPHandler) unconnectedSend(item CIPItem) error {
		var pathsize byte
		var err error'''),(SU,'''			h.server.Logger.Warn("unsupported embedded service in UnconnectedSend", "service", emService)
			return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)
		}

	default:
		// Top-level service code that we don't recognize — same rule as the
		// embedded-service default above: reply with ServiceNotSupported
		// instead of silently dropping. Without this, FactoryTalk Linx
		// retries forever waiting for a response that never comes.
		h.server.Logger.Warn("unsupported unconnected service", "service", service)
		return h.sendUnconnectedErrorReply(service, CIPStatus_ServiceNotSupported)
	}
	return nil
}
''','''			h.server.Logger.Warn("unsupported embedded service in UnconnectedSend", "service", emService)
			return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)
		}
}
'''))
ok('t-uc-table',(SU,'''	switch service {
	case CIPService_ForwardOpen:
		item.Reset()
		err = h.forwardOpen(item)
		if err != nil {
			return fmt.Errorf("problem handling forward open. %w", err)
		}

	case CIPService_LargeForwardOpen:
		item.Reset()
		err = h.largeForwardOpen(item)
		if err != nil {
			return fmt.Errorf("problem handling large forward open. %w", err)
		}
	case CIPService_ForwardClose:
		item.Reset()
		err = h.forwardClose(item)
		if err != nil {
			return fmt.Errorf("problem handling forward close. %w", err)
		}
''','''	connectionServices := map[CIPService]func(CIPItem) error{
		CIPService_ForwardOpen:      h.forwardOpen,
		CIPService_LargeForwardOpen: h.largeForwardOpen,
		CIPService_ForwardClose:     h.forwardClose,
	}
	if handle, ok := connectionServices[service]; ok {
		item.Reset()
		if err := handle(item); err != nil {
			return fmt.Errorf("problem handling %v. %w", service, err)
		}
		return nil
	}
	switch service {
'''))
ok('t-identity-loop',(SU,'''	vendor, ok := attrs[1].(int16)
	if !ok {
		return nil, fmt.Errorf("attribute 1 (VendorID) missing or wrong type: %T", attrs[1])
	}
	deviceType, ok := attrs[2].(int16)
	if !ok {
		return nil, fmt.Errorf("attribute 2 (DeviceType) missing or wrong type: %T", attrs[2])
	}
	productCode, ok := attrs[3].(int16)
	if !ok {
		return nil, fmt.Errorf("attribute 3 (ProductCode) missing or wrong type: %T", attrs[3])
	}
	revision, ok := attrs[4].(int16)
	if !ok {
		return nil, fmt.Errorf("attribute 4 (Revision) missing or wrong type: %T", attrs[4])
	}
	status, ok := attrs[5].(int16)
	if !ok {
		return nil, fmt.Errorf("attribute 5 (Status) missing or wrong type: %T", attrs[5])
	}
''','''	var buf bytes.Buffer
	for i, name := range []string{"VendorID", "DeviceType", "ProductCode", "Revision", "Status"} {
		v, ok := attrs[CIPAttribute(i+1)].(int16)
		if !ok {
			return nil, fmt.Errorf("attribute %d (%s) missing or wrong type: %T", i+1, name, attrs[CIPAttribute(i+1)])
		}
		if err := binary.Write(&buf, binary.LittleEndian, v); err != nil {
			return nil, err
		}
	}
'''),(SU,'''	var buf bytes.Buffer
	if err := binary.Write(&buf, binary.LittleEndian, vendor); err != nil {
		return nil, err
	}
	if err := binary.Write(&buf, binary.LittleEndian, deviceType); err != nil {
		return nil, err
	}
	if err := binary.Write(&buf, binary.LittleEndian, productCode); err != nil {
		return nil, err
	}
	if err := binary.Write(&buf, binary.LittleEndian, revision); err != nil {
		return nil, err
	}
	if err := binary.Write(&buf, binary.LittleEndian, status); err != nil {
		return nil, err
	}
''',''))
ok('t-identity-struct',(SU,'''	if err := binary.Write(&buf, binary.LittleEndian, vendor); err != nil {
		return nil, err
	}
	if err := binary.Write(&buf, binary.LittleEndian, deviceType); err != nil {
		return nil, err
	}
	if err := binary.Write(&buf, binary.LittleEndian, productCode); err != nil {
		return nil, err
	}
	if err := binary.Write(&buf, binary.LittleEndian, revision); err != nil {
		return nil, err
	}
	if err := binary.Write(&buf, binary.LittleEndian, status); err != nil {
		return nil, err
	}
	if err := binary.Write(&buf, binary.LittleEndian, serial); err != nil {
		return nil, err
	}
	if len(productName) > 255 {
		productName = productName[:255]
	}
''','''	fields := []any{vendor, deviceType, productCode, revision, status, serial}
	for _, f := range fields {
		if err := binary.Write(&buf, binary.LittleEndian, f); err != nil {
			return nil, err
		}
	}
'''))
ok('t-shortstring',(SU,'''	if len(name) > 255 {
		name = name[:255]
	}
	var buf bytes.Buffer
	buf.WriteByte(byte(len(name)))
	buf.WriteString(name)
	return buf.Bytes(), nil
''','''	return shortString(name), nil
'''),(SU,'''	if len(productName) > 255 {
		productName = productName[:255]
	}
	buf.WriteByte(byte(len(productName)))
	buf.WriteString(productName)
	return buf.Bytes(), nil
''','''	buf.Write(shortString(productName))
	return buf.Bytes(), nil
'''),(SU,'''	if len(productName) > 255 {
		productName = productName[:255]
	}

	var buf''','''	var buf'''),(SU,'''// parseClassInstancePath''','''// shortString encodes a string with its length in front, cut to what the length can hold.
func shortString(s string) []byte {
	n := min(len(s), 255)
	b := make([]byte, 0, n+1)
	b = append(b, byte(n))
	return append(b, s[:n]...)
}

// parseClassInstancePath'''))
ok('t-symbol-append',(SU,'''	var buf bytes.Buffer
	for i, tag := range tags {
		instanceID := uint32(i + 1) // CIP instances are 1-based
		if instanceID < startInstance {
			continue
		}
		_ = binary.Write(&buf, binary.LittleEndian, instanceID)
		name := tag.Name
		if len(name) > 255 {
			name = name[:255]
		}
		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
		buf.WriteString(name)
		_ = binary.Write(&buf, binary.LittleEndian, uint16(tag.Type))
	}
	return buf.Bytes()
''','''	b := []byte{}
	for i := range tags {
		instanceID := uint32(i + 1) // CIP instances are 1-based
		if instanceID < startInstance {
			continue
		}
		name := tags[i].Name
		if len(name) > 255 {
			name = name[:255]
		}
		b = binary.LittleEndian.AppendUint32(b, instanceID)
		b = binary.LittleEndian.AppendUint16(b, uint16(len(name)))
		b = append(b, name...)
		b = binary.LittleEndian.AppendUint16(b, uint16(tags[i].Type))
	}
	return b
'''))
ok('t-bridge',(SU,'''		provider, err := h.server.Router.Resolve(defaultLocalPath)
		if err != nil {
			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathDestinationUnknown)
		}
		val, err := provider.TagRead(tagName, 1)
		if err != nil {
			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_ObjectDoesNotExist)
		}
		typ, _ := GoVarToCIPType(val)
		if typ == CIPTypeSTRING {
			if s, ok := val.(string); ok {
				return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, cipStringPacker(s))
			}
		}
		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, byte(0), val)
	}
''','''		return h.bridgeRead(tagName)
	}
'''),(SU,'''// defaultLocalPath is''','''// bridgeRead answers a read of a tag through the attribute bridge.
func (h *serverTCPHandler) bridgeRead(tagName string) error {
	reply := func(payload ...any) error {
		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, payload...)
	}
	status := CIPStatus_PathDestinationUnknown
	provider, err := h.server.Router.Resolve(defaultLocalPath)
	if err == nil {
		status = CIPStatus_ObjectDoesNotExist
		var val any
		val, err = provider.TagRead(tagName, 1)
		if err == nil {
			if s, ok := val.(string); ok {
				return reply(cipStringPacker(s))
			}
			typ, _ := GoVarToCIPType(val)
			return reply(typ, byte(0), val)
		}
	}
	return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, status)
}

// defaultLocalPath is'''))
ok('t-bridge-names',(SU,'''	tags := lister.TagList()
	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
	if instance == 0 || int(instance) > len(tags) {
		return "", false
	}
	return tags[instance-1].Name, true
''','''	var names []string
	for _, t := range lister.TagList() {
		names = append(names, t.Name)
	}
	sort.Strings(names)
	index := int(instance) - 1
	if index < 0 || index >= len(names) {
		return "", false
	}
	return names[index], true
'''))
ok('t-io-payload',(IO if False else 'server_iochannel.go','''	if len(items) != 2 {
		return fmt.Errorf("expeted 2 items but got %v", len(items))
	}
	if items[1].Header.ID != cipItem_ConnectedData {
		return fmt.Errorf("expected item 2 to be a connected data item but got %v", items[1].Header.ID)
	}
	var seq_counter uint32

	// according to wireshark only the least significant 4 bits are used.
	// 00.. ROO?
	// ..0. COO?
	// ...1 // Run/Idle (1 = run)
	var header uint16
	err := items[1].DeSerialize(&seq_counter)
	if err != nil {
		return fmt.Errorf("problem getting sequence counter. %w", err)
	}
	err = items[1].DeSerialize(&header)
	if err != nil {
		return fmt.Errorf("problem getting header. %w", err)
	}
	payload := make([]byte, items[1].Header.Length-6)
	err = items[1].DeSerialize(&payload)
	if err != nil {
		return fmt.Errorf("problem getting raw data. %w", err)
	}
	b := bytes.NewBuffer(payload)

	var out Tout
	_, err = Unpack(b, &out)
	if err != nil {
		return fmt.Errorf("problem unpacking data into output struct %w", err)
	}
	p.outMutex.Lock()
	defer p.outMutex.Unlock()
	for i := range p.outChannels {
		select {
		case p.outChannels[i] <- out:
		default:
			return errors.New("problem sending IOWrite data. channel full?")
		}
	}

	return nil
}
''','''	payload, err := ioPayload(items)
	if err != nil {
		return err
	}
	var out Tout
	_, err = Unpack(bytes.NewReader(payload), &out)
	if err != nil {
		return fmt.Errorf("problem unpacking data into output struct %w", err)
	}
	return p.publish(out)
}

// publish hands new output data to everybody that asked for it.
func (p *IOChannelProvider[Tin, Tout]) publish(out Tout) error {
	p.outMutex.Lock()
	defer p.outMutex.Unlock()
	for _, ch := range p.outChannels {
		select {
		case ch <- out:
		default:
			return errors.New("problem sending IOWrite data. channel full?")
		}
	}
	return nil
}

// ioPayload gets the data out of an IO message: it follows the sequence counter and the run/idle header.
func ioPayload(items []CIPItem) ([]byte, error) {
	if len(items) != 2 {
		return nil, fmt.Errorf("expeted 2 items but got %v", len(items))
	}
	item := &items[1]
	if item.Header.ID != cipItem_ConnectedData {
		return nil, fmt.Errorf("expected item 2 to be a connected data item but got %v", item.Header.ID)
	}
	var seq_counter uint32
	var header uint16
	if err := item.DeSerialize(&seq_counter); err != nil {
		return nil, fmt.Errorf("problem getting sequence counter. %w", err)
	}
	if err := item.DeSerialize(&header); err != nil {
		return nil, fmt.Errorf("problem getting header. %w", err)
	}
	payload := make([]byte, item.Header.Length-6)
	if err := item.DeSerialize(&payload); err != nil {
		return nil, fmt.Errorf("problem getting raw data. %w", err)
	}
	return payload, nil
}
'''))
ok('t-path-part',('path.go','''	for _, part := range parts {
		// first see if this looks like an IP address.
		is_ip := strings.Contains(part, ".")
		if is_ip {
			// for some god forsaken reason the path doesn't use the ip address as actual bytes but as an ascii string.
			// we first have to set bit 5 in the previous byte to say we're using an extended address for this part.
			last_pos := len(byte_path) - 1
			if last_pos < 0 {
				return nil, fmt.Errorf("address %v must follow a port number", part)
			}
			if len(part) > 255 {
				return nil, fmt.Errorf("address of %d characters is too long", len(part))
			}
			last_byte := byte_path[last_pos]
			byte_path[last_pos] = last_byte | 1<<4
			l := len(part)
			byte_path = append(byte_path, byte(l))
			string_bytes := []byte(part)
			byte_path = append(byte_path, string_bytes...)
			if l%2 == 1 {
				// segments are a whole number of 16 bit words. The pad byte isn't counted in the length.
				byte_path = append(byte_path, 0x00)
			}
			continue
		}
		// not an IP address
		val, err := strconv.Atoi(part)
		if err != nil {
			return nil, fmt.Errorf("problem converting %v to number. %w", part, err)
		}
		if val < 0 || val > 255 {
			return nil, fmt.Errorf("number out of range. %v", part)
		}
		byte_path = append(byte_path, byte(val))
	}

	return bytes.NewBuffer(byte_path), nil
}
''','''	var err error
	for _, part := range parts {
		if strings.Contains(part, ".") {
			byte_path, err = appendAddress(byte_path, part)
		} else {
			byte_path, err = appendNumber(byte_path, part)
		}
		if err != nil {
			return nil, err
		}
	}

	return bytes.NewBuffer(byte_path), nil
}

// appendAddress adds a link address (as text, padded to whole words) and marks the port in front of it as extended.
func appendAddress(path []byte, part string) ([]byte, error) {
	l := len(part)
	switch {
	case len(path) == 0:
		return nil, fmt.Errorf("address %v must follow a port number", part)
	case l > 255:
		return nil, fmt.Errorf("address of %d characters is too long", l)
	}
	path[len(path)-1] |= 0x10
	path = append(path, byte(l))
	path = append(path, part...)
	if l&1 != 0 {
		path = append(path, 0)
	}
	return path, nil
}

func appendNumber(path []byte, part string) ([]byte, error) {
	val, err := strconv.Atoi(part)
	if err != nil {
		return nil, fmt.Errorf("problem converting %v to number. %w", part, err)
	}
	if val < 0 || val > 0xFF {
		return nil, fmt.Errorf("number out of range. %v", part)
	}
	return append(path, byte(val)), nil
}
'''))
ok('t-path-parseuint',('path.go','''		val, err := strconv.Atoi(part)
		if err != nil {
			return nil, fmt.Errorf("problem converting %v to number. %w", part, err)
		}
		if val < 0 || val > 255 {
			return nil, fmt.Errorf("number out of range. %v", part)
		}
''','''		val, err := strconv.ParseInt(part, 10, 64)
		if err != nil {
			return nil, fmt.Errorf("problem converting %v to number. %w", part, err)
		}
		if val != int64(byte(val)) {
			return nil, fmt.Errorf("number out of range. %v", part)
		}
'''))
_pb=[]
for _m,_w,_a in [('Class','class ID','classID'),('Instance','instance ID','instanceID'),('Attribute','attribute ID','attributeID'),('Element','element ID','elementID'),('Address','address','address')]:
    _pb.append(('path.go','''	if pb.Err != nil {
		return pb
	}
	_, err := pb.b.Write(%s.Bytes())
	if err != nil {
		pb.Err = fmt.Errorf("error writing %s %%v: %%w", %s, err)
	}
	return pb
'''%(_a,_w,_a),'''	return pb.write("%s", %s.Bytes())
'''%(_w,_a)))
ok('t-pathbuilder',*_pb,('path.go','''// Bytes returns the acc''','''func (pb *PathBuilder) write(what string, segment []byte) *PathBuilder {
	if pb.Err == nil {
		if _, err := pb.b.Write(segment); err != nil {
			pb.Err = fmt.Errorf("error writing %s %v: %w", what, segment, err)
		}
	}
	return pb
}

// Bytes returns the acc'''),('path.go','''	str, err := marshalIOIPart(symbol)
	if err != nil {
		pb.Err = fmt.Errorf("error writing symbolic ID %v: %w", symbol, err)
	}
	pb.b.Write(str)
	return pb
''','''	str, err := marshalIOIPart(symbol)
	if err != nil {
		pb.Err = fmt.Errorf("error writing symbolic ID %v: %w", symbol, err)
		return pb
	}
	return pb.write("symbolic ID", str)
'''))
ok('t-uc-table-pkg',(SU,'''	switch service {
	case CIPService_ForwardOpen:
		item.Reset()
		err = h.forwardOpen(item)
		if err != nil {
			return fmt.Errorf("problem handling forward open. %w", err)
		}

	case CIPService_LargeForwardOpen:
		item.Reset()
		err = h.largeForwardOpen(item)
		if err != nil {
			return fmt.Errorf("problem handling large forward open. %w", err)
		}
	case CIPService_ForwardClose:
		item.Reset()
		err = h.forwardClose(item)
		if err != nil {
			return fmt.Errorf("problem handling forward close. %w", err)
		}
''','''	if handle, ok := connectionServices[service]; ok {
		item.Reset()
		if err := handle(h, item); err != nil {
			return fmt.Errorf("problem handling %v. %w", service, err)
		}
		return nil
	}
	switch service {
'''),(SU,'''func (h *serverTCPHandler) unconnectedData(''','''var connectionServices = map[CIPService]func(*serverTCPHandler, CIPItem) error{
	CIPService_ForwardOpen:      (*serverTCPHandler).forwardOpen,
	CIPService_LargeForwardOpen: (*serverTCPHandler).largeForwardOpen,
	CIPService_ForwardClose:     (*serverTCPHandler).forwardClose,
}

func (h *serverTCPHandler) unconnectedData('''))
ok('t-em-table',(SU,'''		switch emService {
		case CIPService_Write:
			return h.unconnectedServiceWrite(item)
		case CIPService_Read:
			return h.unconnectedServiceRead(item)
		case CIPService_GetAttributeSingle:
			return h.unconnectedServiceGetAttrSingle(item)
		case CIPService_SetAttributeSingle:
			// Reached via FactoryTalk View's CIP Object write path: the
			// request is wrapped in UnconnectedSend (0x52) instead of going
			// straight as a direct UCMM SetAttributeSingle. Without this
			// case the wrapped write fell through to the default branch and
			// FT View saw "Service not supported", which surfaced in its
			// Diagnostics List as "Problem writing value ... to item ...".
			return h.unconnectedServiceSetAttrSingle(item)
		case CIPService_GetAttributeAll:
			return h.unconnectedGetAttributeAll(item)
		default:
			// Reply with an explicit ServiceNotSupported CIP error so the
			// originator knows the device is alive but the service isn't
			// implemented. Returning a Go error here used to bubble up to
			// the connection loop and silently drop the reply, which made
			// FactoryTalk Linx (and any other strict client) interpret the
			// device as dead and tear down the shortcut bind. See upstream
			// issue danomagnum/gologix#13.
			h.server.Logger.Warn("unsupported embedded service in UnconnectedSend", "service", emService)
			return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)
		}
''','''		handlers := map[CIPService]func(CIPItem) error{
			CIPService_Write:              h.unconnectedServiceWrite,
			CIPService_Read:               h.unconnectedServiceRead,
			CIPService_GetAttributeSingle: h.unconnectedServiceGetAttrSingle,
			CIPService_SetAttributeSingle: h.unconnectedServiceSetAttrSingle,
			CIPService_GetAttributeAll:    h.unconnectedGetAttributeAll,
		}
		handler, found := handlers[emService]
		if !found {
			h.server.Logger.Warn("unsupported embedded service in UnconnectedSend", "service", emService)
			return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)
		}
		return handler(item)
'''))

# ---- round u: names, packing, reads
_IX='''			if strings.HasSuffix(tag_str, "]") {
				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
			} else {
				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
			}
'''
ok('u-path-index',('ioi.go','''			// one byte index
			var array_index byte
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
'''+_IX,'''			// one byte index
			var array_index byte
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
			tag_str = addIndex(tag_str, uint32(array_index))
'''),('ioi.go','''			var array_index uint16
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
'''+_IX,'''			var array_index uint16
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
			tag_str = addIndex(tag_str, uint32(array_index))
'''),('ioi.go','''			var array_index uint32
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
'''+_IX,'''			var array_index uint32
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
			tag_str = addIndex(tag_str, array_index)
'''),('ioi.go','''func getTagFromPath(item''','''// addIndex adds one more index to the last element of a name.
func addIndex(tag string, index uint32) string {
	if rest, ok := strings.CutSuffix(tag, "]"); ok {
		return fmt.Sprintf("%s,%d]", rest, index)
	}
	return fmt.Sprintf("%s[%d]", tag, index)
}

func getTagFromPath(item'''))
ok('u-path-generic',('ioi.go','''			// two byte index
			var pad byte
			err = item.DeSerialize(&pad)
			if err != nil {
				return "", fmt.Errorf("couldn't get padding: %w", err)
			}
			var array_index uint16
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
''','''			// two byte index
			array_index, err := readPadded[uint16](item)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
'''),('ioi.go','''			var pad byte
			err = item.DeSerialize(&pad)
			if err != nil {
				return "", fmt.Errorf("couldn't get padding: %w", err)
			}
			var array_index uint32
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
''','''			array_index, err := readPadded[uint32](item)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
'''),('ioi.go','''func getTagFromPath(item''','''// readPadded reads a number that has a pad byte in front of it.
func readPadded[T uint16 | uint32](item *CIPItem) (T, error) {
	var v struct {
		Pad   byte
		Value T
	}
	err := item.DeSerialize(&v)
	return v.Value, err
}

func getTagFromPath(item'''))
ok('u-path-peek',('ioi.go','''		default:
			// this byte does not indicate the tag path is continuing.  go back by one in the item's data buffer to "unread" it.
			item.Pos--
			break morepath
		}

	}

	return tag_str, nil
''','''		default:
			// this byte does not indicate the tag path is continuing.  go back by one in the item's data buffer to "unread" it.
			item.Pos--
			return tag_str, nil
		}

	}
'''),('ioi.go','''
morepath:
	for {''','''	for {'''))
ok('u-ioi-index',('ioi.go','''				if order_size < 256 {
					// byte, byte
					index_part := []byte{byte(cipElement_8bit), byte(order_size)}
					err = binary.Write(ioi, binary.LittleEndian, index_part)
					if err != nil {
						return nil, fmt.Errorf("problem reading index part. %w", err)
					}
				} else if order_size < 65536 {
					// uint16, uint16
					index_part := []uint16{uint16(cipElement_16bit), uint16(order_size)}
					err = binary.Write(ioi, binary.LittleEndian, index_part)
					if err != nil {
						return nil, fmt.Errorf("problem reading index part. %w", err)
					}
				} else if int64(order_size) > math.MaxUint32 {
					return nil, fmt.Errorf("array index %d is too big in %s", order_size, tagpath)
				} else {
					// uint16, uint32
					index_part0 := []uint16{uint16(cipElement_32bit)}
					err = binary.Write(ioi, binary.LittleEndian, index_part0)
					if err != nil {
						return nil, err
					}
					index_part1 := []uint32{uint32(order_size)}
					err = binary.Write(ioi, binary.LittleEndian, index_part1)
					if err != nil {
						return nil, err
					}
				}
''','''				if int64(order_size) > math.MaxUint32 {
					return nil, fmt.Errorf("array index %d is too big in %s", order_size, tagpath)
				}
				ioi.Buffer = appendElement(ioi.Buffer, order_size)
'''),('ioi.go','''	"encoding/binary"
''','''	"encoding/binary"
'''),('ioi.go','''func marshalIOIPart(''','''// appendElement adds the shortest segment that holds an array index.
func appendElement(b []byte, index int) []byte {
	switch {
	case index < 1<<8:
		return append(b, byte(cipElement_8bit), byte(index))
	case index < 1<<16:
		b = binary.LittleEndian.AppendUint16(b, uint16(cipElement_16bit))
		return binary.LittleEndian.AppendUint16(b, uint16(index))
	}
	b = binary.LittleEndian.AppendUint16(b, uint16(cipElement_32bit))
	return binary.LittleEndian.AppendUint32(b, uint32(index))
}

func marshalIOIPart('''))
ok('u-ioi-parts',('ioi.go','''	for i, tag_part := range tag_array {
		if strings.HasSuffix(tag_part, "]") {
			// part of an array
			start_index := strings.Index(tag_part, "[")
			if start_index <= 0 || start_index != strings.LastIndex(tag_part, "[") {
				return nil, fmt.Errorf("malformed array index in %s", tagpath)
			}
			ioi_part, err := marshalIOIPart(tag_part[0:start_index])
''','''	for i, tag_part := range tag_array {
		if strings.HasSuffix(tag_part, "]") {
			// part of an array
			name, rest, found := strings.Cut(tag_part, "[")
			if !found || name == "" || strings.Contains(rest, "[") {
				return nil, fmt.Errorf("malformed array index in %s", tagpath)
			}
			ioi_part, err := marshalIOIPart(name)
'''))
ok('u-marshal-part',('ioi.go','''	need_extend := false
	if tag_size%2 == 1 {
		need_extend = true
		//tag_size += 1
	}

	tag_name_header := [2]byte{byte(segmentTypeExtendedSymbolic), byte(tag_size)}
	tag_name_msg := append(tag_name_header[:], []byte(t.BasePath)...)
	// has to be an even number of bytes.
	if need_extend {
		tag_name_msg = append(tag_name_msg, []byte{0x00}...)
	}
	return tag_name_msg, nil
''','''	// has to be an even number of bytes.
	tag_name_msg := make([]byte, 2+tag_size+tag_size%2)
	tag_name_msg[0] = byte(segmentTypeExtendedSymbolic)
	tag_name_msg[1] = byte(tag_size)
	copy(tag_name_msg[2:], t.BasePath)
	return tag_name_msg, nil
'''))
ok('u-ioi-known',('ioi.go','''	if firmware > 20 {
		tag_info, ok := client.KnownTags[tagpath]
		if ok {
''','''	if tag_info, ok := client.KnownTags[tagpath]; ok && firmware > 20 {
		{
'''))
ok('u-parse-order',('ioi.go','''		if strings.Contains(arr_access_text, ",") {
			parts := strings.Split(arr_access_text, ",")
			tag.Array_Order = make([]int, len(parts))
			for i, part := range parts {
				tag.Array_Order[i], err = strconv.Atoi(strings.TrimSpace(part))
				if err != nil {
					return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
				}
			}

		} else {
			tag.Array_Order = make([]int, 1)
			tag.Array_Order[0], err = strconv.Atoi(strings.TrimSpace(arr_access_text))
			if err != nil {
				return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
			}
		}
''','''		for _, part := range strings.Split(arr_access_text, ",") {
			index, err := strconv.Atoi(strings.TrimSpace(part))
			if err != nil {
				return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
			}
			tag.Array_Order = append(tag.Array_Order, index)
		}
'''),('ioi.go','''	if arrpos == nil {
		tag.Array_Order = nil
	} else {
''','''	tag.Array_Order = nil
	if arrpos != nil {
'''))
ok('u-ascii-part',('ioi.go','''	b := make([]byte, tag_len)
	err = item.DeSerialize(&b)
	if err != nil {
		return "", fmt.Errorf("problem reading tag path. %w", err)
	}
	if tag_len%2 == 1 {
		var pad byte
		err = item.DeSerialize(&pad)
		if err != nil {
			return "", fmt.Errorf("problem reading pad byte. %w", err)
		}
	}

	tag_str := string(b)
	return tag_str, nil
''','''	padded := int(tag_len) + int(tag_len&1)
	b := make([]byte, padded)
	err = item.DeSerialize(&b)
	if err != nil {
		return "", fmt.Errorf("problem reading tag path. %w", err)
	}
	return string(b[:tag_len]), nil
'''))
_FL='''						if bitpos >= 8 {
							_, err := w.Write([]byte{bitpack})
							if err != nil {
								//TODO: make this function return error?
								return pos, fmt.Errorf("problem writing bitpack to buffer. %v", err)
							}
							bitpos = 0
							bitpack = 0
							pos += 1
						}
'''
ok('u-pack-flush',('pack.go',_FL,'''						if bitpos >= 8 {
							if err := flush(); err != nil {
								return pos, err
							}
						}
'''),('pack.go','''				if bitpos >= 8 {
					_, err := w.Write([]byte{bitpack})
					if err != nil {
						return pos, fmt.Errorf("problem writing bitpacked byte. %v", err)
					}
					bitpos = 0
					bitpack = 0
					pos += 1
				}
				continue
''','''				if bitpos >= 8 {
					if err := flush(); err != nil {
						return pos, err
					}
				}
				continue
'''),('pack.go','''		if bitpos > 0 {
			// we have at least one bit that needs flushed.
			_, err := w.Write([]byte{bitpack})
			if err != nil {
				return pos, fmt.Errorf("problem writing bitpacked byte. %v", err)
			}
			bitpos = 0
			bitpack = 0
			pos += 1
		}
''','''		if bitpos > 0 {
			// we have at least one bit that needs flushed.
			if err := flush(); err != nil {
				return pos, err
			}
		}
'''),('pack.go','''	if bitpos > 0 {
		// we have at least one bit that needs flushed.
		_, err := w.Write([]byte{bitpack})
		if err != nil {
			return pos, fmt.Errorf("problem flushing bitpack, %v", err)
		}
		pos += 1
	}

	return pos, nil
''','''	if bitpos > 0 {
		// we have at least one bit that needs flushed.
		if err := flush(); err != nil {
			return pos, err
		}
	}

	return pos, nil
'''),('pack.go','''	bitpos := 0
	bitpack := byte(0)

	// start reflecting and loop through the fields of the struct
	refVal := reflect.ValueOf(data)
	if refVal.Kind() != reflect.Struct {''','''	bitpos := 0
	bitpack := byte(0)
	flush := func() error {
		if _, err := w.Write([]byte{bitpack}); err != nil {
			return fmt.Errorf("problem writing bitpacked byte. %v", err)
		}
		bitpos, bitpack = 0, 0
		pos++
		return nil
	}

	// start reflecting and loop through the fields of the struct
	refVal := reflect.ValueOf(data)
	if refVal.Kind() != reflect.Struct {'''))
ok('u-pack-pad',('pack.go','''		rem := a - (pos % a)
		if rem < a && rem > 0 {
			// need paddding bits
			pad := make([]byte, rem)
			_, err := w.Write(pad)
			if err != nil {
				return pos, fmt.Errorf("problem writing pad to buffer. %v", err)
			}
			pos += rem
		}
''','''		if over := pos % a; over != 0 {
			// need paddding bits
			n, err := w.Write(make([]byte, a-over))
			if err != nil {
				return pos, fmt.Errorf("problem writing pad to buffer. %v", err)
			}
			pos += n
		}
'''))
ok('u-serialize-string',('pack.go','''			// the length must not claim more bytes than the payload carries.
			strlen := uint32(len(serializable_str))
			if strlen > 84 {
				strlen = 84
			}
			err := binary.Write(b, binary.LittleEndian, strlen)
			if err != nil {
				return nil, fmt.Errorf("problem writing string header: %w", err)
			}
			b2 := make([]byte, 84)
			copy(b2, serializable_str)
			err = binary.Write(b, binary.LittleEndian, b2)
			if err != nil {
				return nil, fmt.Errorf("problem writing string payload: %w", err)
			}
''','''			var s struct {
				Len  uint32
				Data [84]byte
			}
			s.Len = uint32(copy(s.Data[:], serializable_str))
			if err := binary.Write(b, binary.LittleEndian, s); err != nil {
				return nil, fmt.Errorf("problem writing string: %w", err)
			}
'''))
ok('u-readarr-generic',('read.go','''	case []int16:
		elements := len(data)
		v, err := readArray[int16](client, tag, elements)
		if err != nil {
			return err
		}
		if len(v) != elements {
			return fmt.Errorf("got %d instead of %d elements", len(v), elements)
		}
		for i := range data {
			data[i] = v[i]
		}
		return nil
''','''	case []int16:
		return readInto(client, tag, data)
'''),('read.go','''	case []int32:
		elements := len(data)
		v, err := readArray[int32](client, tag, elements)
		if err != nil {
			return err
		}
		if len(v) != elements {
			return fmt.Errorf("got %d instead of %d elements", len(v), elements)
		}
		for i := range data {
			data[i] = v[i]
		}
		return nil
''','''	case []int32:
		return readInto(client, tag, data)
'''),('read.go','''func readArray[T''','''// readInto reads as many elements as the slice has into it.
func readInto[T GoLogixTypes](client *Client, tag string, data []T) error {
	v, err := readArray[T](client, tag, len(data))
	if err != nil {
		return err
	}
	if len(v) != len(data) {
		return fmt.Errorf("got %d instead of %d elements", len(v), len(data))
	}
	copy(data, v)
	return nil
}

func readArray[T'''))
ok('u-read-generic',('read.go','''	case *int16:
		v, err := read[int16](client, tag)
		if err != nil {
			return err
		}
		*data = v
		return nil
''','''	case *int16:
		return readTo(client, tag, data)
'''),('read.go','''	case *float32:
		v, err := read[float32](client, tag)
		if err != nil {
			return err
		}
		*data = v
		return nil
''','''	case *float32:
		return readTo(client, tag, data)
'''),('read.go','''func readArray[T''','''func readTo[T GoLogixTypes](client *Client, tag string, data *T) error {
	v, err := read[T](client, tag)
	if err == nil {
		*data = v
	}
	return err
}

func readArray[T'''))
ok('u-readsingle-string',('read.go','''				str_hdr := cipStringHeader{}
				err = items[1].DeSerialize(&str_hdr)
				if err != nil {
					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
				}
				if int64(str_hdr.Length) > int64(len(items[1].Data)-items[1].Pos) {
					return nil, fmt.Errorf("string length %d is more than the reply holds", str_hdr.Length)
				}
				str := make([]byte, str_hdr.Length)
				err = items[1].DeSerialize(&str)
				if err != nil {
					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
				}
				return str, nil
''','''				return readStringValue(&items[1])
'''),('read.go','''func readArray[T''','''// readStringValue reads a string of which the reply only holds the characters that are in use.
func readStringValue(item *CIPItem) ([]byte, error) {
	var hdr cipStringHeader
	if err := item.DeSerialize(&hdr); err != nil {
		return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
	}
	rest := item.Data[item.Pos:]
	if uint64(hdr.Length) > uint64(len(rest)) {
		return nil, fmt.Errorf("string length %d is more than the reply holds", hdr.Length)
	}
	str := append(make([]byte, 0, hdr.Length), rest[:hdr.Length]...)
	item.Pos += len(str)
	return str, nil
}

func readArray[T'''))
ok('u-readsingle-status',('read.go','''	if hdr2.Status[1] == byte(CIPStatus_PartialTransfer) {
		// Struct''','''	status := CIPStatus(hdr2.Status[1])
	switch status {
	case CIPStatus_OK:
	case CIPStatus_PartialTransfer:
		// Struct'''),('read.go','''	} else if hdr2.Status[1] != 0 {
		return nil, fmt.Errorf("read of %s returned status %v", tag, CIPStatus(hdr2.Status[1]))
	}
''','''	default:
		return nil, fmt.Errorf("read of %s returned status %v", tag, status)
	}
'''))
ok('u-readsingle-elements',('read.go','''	if elements == 1 {
		if datatype == CIPTypeBOOL && hdr2.Type != CIPTypeBOOL && ioi.BitAccess {
			// we have requested a bool from some other type.  Maybe a bit access?
			value, err := readValue(hdr2.Type, &items[1])
			if err != nil {
				return nil, fmt.Errorf("problem reading bool tag %s: %w", tag, err)
			}
			return getBit(hdr2.Type, value, ioi.BitPosition)
		}
		// not a struct so we can read the value directly
		value, err := readValue(hdr2.Type, &items[1])
		if err != nil {
			return nil, fmt.Errorf("problem reading tag %s: %w", tag, err)
		}
		return value, nil
	} else {
		value := make([]any, elements)
		for i := 0; i < int(elements); i++ {
			value[i], err = readValue(hdr2.Type, &items[1])
			if err != nil {
				return nil, fmt.Errorf("problem reading element %d of %s: %w", i, tag, err)
			}

		}
		return value, nil

	}
''','''	values := make([]any, elements)
	for i := range values {
		values[i], err = readValue(hdr2.Type, &items[1])
		if err != nil {
			return nil, fmt.Errorf("problem reading element %d of %s: %w", i, tag, err)
		}
	}
	if elements != 1 {
		return values, nil
	}
	if datatype == CIPTypeBOOL && hdr2.Type != CIPTypeBOOL && ioi.BitAccess {
		// we have requested a bool from some other type.  Maybe a bit access?
		return getBit(hdr2.Type, values[0], ioi.BitPosition)
	}
	return values[0], nil
'''))
ok('u-readsingle-request',('read.go','''	reqItems := make([]CIPItem, 2)
	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)

	readMsg := msgCIPConnectedServiceReq{
		SequenceCount: uint16(sequencer()),
		Service:       CIPService_Read,
		PathLength:    pathLength,
	}
	// setup item
	reqItems[1] = newItem(cipItem_ConnectedData, readMsg)
	// add path
	err = reqItems[1].Serialize(ioi, elements)
	if err != nil {
		return nil, fmt.Errorf("problem serializing ioi: %w", err)
	}

	itemData, err := serializeItems(reqItems)
	if err != nil {
		return nil, err
	}
	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
	if err != nil {
		return nil, err
	}
	_ = hdr
''','''	data, err := client.requestRead(ioi, pathLength, elements)
	if err != nil {
		return nil, err
	}
'''),('read.go','''func readArray[T''','''// requestRead sends the request for some elements and gives what comes after the header of the reply.
func (client *Client) requestRead(ioi *tagIOI, pathLength byte, elements uint16) (*bytes.Buffer, error) {
	address := newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
	request := newItem(cipItem_ConnectedData, msgCIPConnectedServiceReq{
		SequenceCount: uint16(sequencer()),
		Service:       CIPService_Read,
		PathLength:    pathLength,
	})
	if err := request.Serialize(ioi, elements); err != nil {
		return nil, fmt.Errorf("problem serializing ioi: %w", err)
	}
	itemData, err := serializeItems([]CIPItem{address, request})
	if err != nil {
		return nil, err
	}
	_, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
	return data, err
}

func readArray[T'''))
# ---- v-: templates, tag lists, exports
LM='listmembers.go'
ok('v-listmembers-names',(LM,'''	struct_name, err := data2.ReadString(0x00)
	if err != nil {
		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
	}

	if strings.Contains(struct_name, ";") {
		struct_name = strings.Split(struct_name, ";")[0]
	}
	struct_name = strings.TrimSuffix(struct_name, "\\x00")
	descriptor.Name = struct_name
''','''	struct_name, err := nextName(data2)
	if err != nil {
		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
	}
	descriptor.Name, _, _ = strings.Cut(struct_name, ";")
'''),(LM,'''		fieldname, err := data2.ReadString(0x00)
		if err != nil && fieldname == "" {
			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
		}
		fieldname = strings.TrimSuffix(fieldname, "\\x00")
''','''		fieldname, err := nextName(data2)
		if err != nil && fieldname == "" {
			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
		}
'''),(LM,'''// full descriptor of a struct''','''// nextName is the text up to the next zero byte.
func nextName(r *bytes.Buffer) (string, error) {
	name, err := r.ReadString(0x00)
	return strings.TrimSuffix(name, "\\x00"), err
}

// full descriptor of a struct'''))
ok('v-listmembers-request',(LM,'''	reqitems := make([]CIPItem, 2)
	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)

	p, err := Serialize(
		CipObject_Template, CIPInstance(str_instance),
		//cipObject_Symbol, cipInstance(start_instance),
	)
	if err != nil {
		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
	}
	pathLength, err := pathWords(p.Bytes())
	if err != nil {
		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
	}

	readmsg := msgCIPConnectedServiceReq{
		SequenceCount: uint16(sequencer()),
		Service:       CIPService_Read,
		PathLength:    pathLength,
	}

	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
	err = reqitems[1].Serialize(p.Bytes())
	if err != nil {
		return UDTDescriptor{}, fmt.Errorf("problem serializing path: %w", err)
	}
	start_offset''','''	reqitems, err := client.templateRequest(CIPService_Read, str_instance)
	if err != nil {
		return UDTDescriptor{}, err
	}
	start_offset'''),(LM,'''	reqitems := make([]CIPItem, 2)
	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)

	p, err := Serialize(
		CipObject_Template, CIPInstance(str_instance),
		//cipObject_Symbol, cipInstance(start_instance),
	)
	if err != nil {
		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't build path. %w", err)
	}
	pathLength, err := pathWords(p.Bytes())
	if err != nil {
		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't build path. %w", err)
	}

	readmsg := msgCIPConnectedServiceReq{
		SequenceCount: uint16(sequencer()),
		Service:       CIPService_GetAttributeList,
		PathLength:    pathLength,
	}

	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
	err = reqitems[1].Serialize(p.Bytes())
	if err != nil {
		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem serializing path: %w", err)
	}
''','''	reqitems, err := client.templateRequest(CIPService_GetAttributeList, str_instance)
	if err != nil {
		return msgGetTemplateAttrListResponse{}, err
	}
'''),(LM,'''type msgMemberInfoHdr struct''','''// templateRequest starts a request of a service of a template object.
func (client *Client) templateRequest(service CIPService, instance uint32) ([]CIPItem, error) {
	p, err := Serialize(CipObject_Template, CIPInstance(instance))
	if err != nil {
		return nil, fmt.Errorf("couldn't build path. %w", err)
	}
	words, err := pathWords(p.Bytes())
	if err != nil {
		return nil, fmt.Errorf("couldn't build path. %w", err)
	}
	data := newItem(cipItem_ConnectedData, msgCIPConnectedServiceReq{
		SequenceCount: uint16(sequencer()),
		Service:       service,
		PathLength:    words,
	})
	if err := data.Serialize(p.Bytes()); err != nil {
		return nil, fmt.Errorf("problem serializing path: %w", err)
	}
	return []CIPItem{newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID), data}, nil
}

type msgMemberInfoHdr struct'''))
REPLY='''	itemdata, err := serializeItems(reqitems)
	if err != nil {
		return %(Z)s{}, fmt.Errorf("problem serializing item data: %%w", err)
	}
	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
	if err != nil {
		return %(Z)s{}, err
	}
	_ = hdr
	_ = data
	//data_hdr := ListInstanceHeader{}
	//binary.Read(data, binary.LittleEndian, &data_hdr)

	// first six bytes are zero.
	padding := make([]byte, 6)
	_, err = data.Read(padding)
	if err != nil {
		return %(Z)s{}, fmt.Errorf("%(P)s padding. %%w", err)
	}

	resp_items, err := readItems(data)
	if err != nil {
		return %(Z)s{}, fmt.Errorf("couldn't parse items. %%w", err)
	}
	if len(resp_items) < 2 {
		return %(Z)s{}, fmt.Errorf("wrong Number of Items. Expected 2 but got %%v", len(resp_items))
	}

	// get ready to read tag info from item 1 data
	data2 := bytes.NewBuffer(resp_items[1].Data)
'''
NEWR='''	data2, err := client.exchange(reqitems)
	if err != nil {
		return %(Z)s{}, err
	}
'''
ok('v-listmembers-exchange',(LM,REPLY%dict(Z='UDTDescriptor',P="couldn't read"),NEWR%dict(Z='UDTDescriptor')),
 (LM,REPLY%dict(Z='msgGetTemplateAttrListResponse',P="problem reading"),NEWR%dict(Z='msgGetTemplateAttrListResponse')),
 (LM,'''type msgMemberInfoHdr struct''','''// exchange sends a request on the connection and gives the data item of the reply.
func (client *Client) exchange(request []CIPItem) (*bytes.Buffer, error) {
	payload, err := serializeItems(request)
	if err != nil {
		return nil, fmt.Errorf("problem serializing item data: %w", err)
	}
	_, data, err := client.send_recv_data(cipCommandSendUnitData, payload)
	if err != nil {
		return nil, err
	}
	// first six bytes are zero.
	var padding [6]byte
	if _, err := data.Read(padding[:]); err != nil {
		return nil, fmt.Errorf("problem reading padding. %w", err)
	}
	items, err := readItems(data)
	switch {
	case err != nil:
		return nil, fmt.Errorf("couldn't parse items. %w", err)
	case len(items) < 2:
		return nil, fmt.Errorf("wrong Number of Items. Expected 2 but got %v", len(items))
	}
	return bytes.NewBuffer(items[1].Data), nil
}

type msgMemberInfoHdr struct'''))
MEM='''	for i := 0; i < int(template_info.MemberCount); i++ {

		fieldname, err := data2.ReadString(0x00)
		if err != nil && fieldname == "" {
			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
		}
		fieldname = strings.TrimSuffix(fieldname, "\\x00")

		descriptor.Members[i].Name = fieldname
		descriptor.Members[i].Info = memberInfos[i]
		id := descriptor.Members[i].Template_ID()
		if id != 0 {
			// this is a UDT
			d2, err := client.listMembers(uint32(descriptor.Members[i].Template_ID()), parents)
			if err != nil && !client.Connected() {
				return UDTDescriptor{}, fmt.Errorf("lost connection listing members of %s: %w", fieldname, err)
			}
			if err == nil {
				descriptor.Members[i].UDT = &d2
			} else {
				client.Logger.Debug("couldn't get udt", "name", fieldname, "type", descriptor.Members[i].Info.Type)
			}
		}
	}
'''
ok('v-listmembers-member',(LM,MEM,'''	for i, info := range memberInfos {
		member, err := client.readMember(data2, info, parents)
		if err != nil {
			return UDTDescriptor{}, err
		}
		descriptor.Members[i] = member
	}
'''),(LM,'''// full descriptor of a struct''','''// readMember takes the name of the next member out of a template and looks up what it is made of.
func (client *Client) readMember(r *bytes.Buffer, info msgMemberInfo, parents []uint32) (UDTMemberDescriptor, error) {
	name, err := r.ReadString(0x00)
	if err != nil && name == "" {
		return UDTMemberDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
	}
	member := UDTMemberDescriptor{Name: strings.TrimSuffix(name, "\\x00"), Info: info}
	id := member.Template_ID()
	if id == 0 {
		return member, nil
	}
	// this is a UDT
	inner, err := client.listMembers(uint32(id), parents)
	if err == nil {
		member.UDT = &inner
		return member, nil
	}
	if !client.Connected() {
		return UDTMemberDescriptor{}, fmt.Errorf("lost connection listing members of %s: %w", member.Name, err)
	}
	client.Logger.Debug("couldn't get udt", "name", member.Name, "type", info.Type)
	return member, nil
}

// full descriptor of a struct'''))
ok('v-listmembers-memberptr',(LM,MEM,'''	for i := range descriptor.Members {
		m := &descriptor.Members[i]
		fieldname, err := data2.ReadString(0x00)
		if err != nil && fieldname == "" {
			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
		}
		m.Name = strings.TrimSuffix(fieldname, "\\x00")
		m.Info = memberInfos[i]
		id := m.Template_ID()
		if id == 0 {
			continue
		}
		// this is a UDT
		d2, err := client.listMembers(uint32(id), parents)
		switch {
		case err == nil:
			m.UDT = &d2
		case !client.Connected():
			return UDTDescriptor{}, fmt.Errorf("lost connection listing members of %s: %w", m.Name, err)
		default:
			client.Logger.Debug("couldn't get udt", "name", m.Name, "type", m.Info.Type)
		}
	}
'''))
ok('v-listmembers-attrs',(LM,'''	number_of_attr_to_receive := 4
	attr_Size_32bitWords := 4
	attr_Size_Bytes := 5
	attr_MemberCount := 2
	attr_symbol_type := 1
	err = reqitems[1].Serialize([5]uint16{
		uint16(number_of_attr_to_receive),
		uint16(attr_Size_32bitWords),
		uint16(attr_Size_Bytes),
		uint16(attr_MemberCount),
		uint16(attr_symbol_type),
	})
''','''	err = reqitems[1].Serialize(struct {
		Count      uint16
		Attributes [4]uint16
	}{
		Count: 4,
		Attributes: [4]uint16{
			4, // size in words
			5, // size of the data in bytes
			2, // number of members
			1, // handle
		},
	})
'''),(LM,'''	err = reqitems[1].Serialize(start_offset)
	if err != nil {
		return UDTDescriptor{}, fmt.Errorf("problem serializing item start offset: %w", err)
	}
	err = reqitems[1].Serialize(read_length)
	if err != nil {
		return UDTDescriptor{}, fmt.Errorf("problem serializing item read length: %w", err)
	}
''','''	err = reqitems[1].Serialize(start_offset, read_length)
	if err != nil {
		return UDTDescriptor{}, fmt.Errorf("problem serializing what to read: %w", err)
	}
'''))
ok('v-template-id-shared',(LM,'''	val := u.Info.Type
	template_mask := uint16(0b0000_1111_1111_1111) // spec says first 11 bits, but built-in types use 12th.
	bit12 := uint16(1 << 12)
	bit15 := uint16(1 << 15)
	b12_set := val&bit12 != 0
	b15_set := val&bit15 != 0
	if !b15_set || b12_set {
		// not a template
		return 0
	}

	return val & template_mask
}''','''	return templateOf(u.Info.Type)
}

// templateOf is the template of a symbol type, or zero if it isn't a structure.
func templateOf(symbolType uint16) uint16 {
	const structure, system, id = 0x8000, 0x1000, 0x0FFF
	if symbolType&(structure|system) != structure {
		return 0
	}
	return symbolType & id
}'''),(LA,'''	template_mask := uint16(0b0000_1111_1111_1111) // spec says first 11 bits, but built-in types use 12th.
	bit12 := uint16(1 << 12)
	bit15 := uint16(1 << 15)
	b12_set := val&bit12 != 0
	b15_set := val&bit15 != 0
	if !b15_set || b12_set {
		// not a template
		return 0
	}

	return val & template_mask

}''','''	return templateOf(val)
}'''))
ok('v-listall-record',(LA,'''	last_instance := uint32(0)
	tag_hdr := new(msgtagResultDataHeader)
	tag_ftr := new(TagInfo)
	for data2.Len() > 0 {

		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
		if err != nil {
			return fmt.Errorf("problem reading tag header. %w", err)
		}
		last_instance = tag_hdr.InstanceID

		tag_name := make([]byte, tag_hdr.NameLength)
		err = binary.Read(data2, binary.LittleEndian, &tag_name)
		if err != nil {
			return fmt.Errorf("problem reading tag name. %w", err)
		}
		tag_string := string(tag_name)

		// the end of the tagName has to be aligned on a 16 bit word
		//tagName_alignment := tag_hdr.NameLength % 2
		//if tagName_alignment != 0 {
		//data2.Next(int(tagName_alignment))
		//}
		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
		if err != nil {
			return fmt.Errorf("problem reading tag footer. %w", err)
		}

		kt := KnownTag{
			Name:     string(tag_name),
			Info:     *tag_ftr,
			Instance: CIPInstance(tag_hdr.InstanceID),
		}
		if tag_ftr.Dimension3 != 0 {
			kt.Array_Order = make([]int, 3)
			kt.Array_Order[2] = int(tag_ftr.Dimension3)
			kt.Array_Order[1] = int(tag_ftr.Dimension2)
			kt.Array_Order[0] = int(tag_ftr.Dimension1)
		} else if tag_ftr.Dimension2 != 0 {
			kt.Array_Order = make([]int, 2)
			kt.Array_Order[1] = int(tag_ftr.Dimension2)
			kt.Array_Order[0] = int(tag_ftr.Dimension1)
		} else if tag_ftr.Dimension1 != 0 {
			kt.Array_Order = make([]int, 1)
			kt.Array_Order[0] = int(tag_ftr.Dimension1)
		} else {
			kt.Array_Order = make([]int, 0)
		}
''','''	last_instance := uint32(0)
	for data2.Len() > 0 {
		kt, err := nextKnownTag(data2)
		if err != nil {
			return err
		}
		last_instance = uint32(kt.Instance)
		tag_string := kt.Name
		tag_ftr := &kt.Info
'''),(LA,'''					"header", tag_hdr,
''','''					"instance", kt.Instance,
'''),(LA,'''		client.KnownTags[strings.ToLower(string(tag_name))] = kt
''','''		client.KnownTags[strings.ToLower(kt.Name)] = kt
'''),(LA,'''// per 1756-PM020H-EN-P page 43''','''// nextKnownTag reads one entry of a list of tags.
func nextKnownTag(r *bytes.Buffer) (KnownTag, error) {
	var hdr msgtagResultDataHeader
	if err := binary.Read(r, binary.LittleEndian, &hdr); err != nil {
		return KnownTag{}, fmt.Errorf("problem reading tag header. %w", err)
	}
	name := make([]byte, hdr.NameLength)
	if err := binary.Read(r, binary.LittleEndian, &name); err != nil {
		return KnownTag{}, fmt.Errorf("problem reading tag name. %w", err)
	}
	var info TagInfo
	if err := binary.Read(r, binary.LittleEndian, &info); err != nil {
		return KnownTag{}, fmt.Errorf("problem reading tag footer. %w", err)
	}
	return KnownTag{
		Name:        string(name),
		Info:        info,
		Instance:    CIPInstance(hdr.InstanceID),
		Array_Order: info.order(),
	}, nil
}

// order is the sizes of the dimensions there are.
func (f TagInfo) order() []int {
	sizes := []int{int(f.Dimension1), int(f.Dimension2), int(f.Dimension3)}
	n := len(sizes)
	for n > 0 && sizes[n-1] == 0 {
		n--
	}
	return sizes[:n]
}

// per 1756-PM020H-EN-P page 43'''))
ok('v-listall-template',(LA,'''		if tag_ftr.Template_ID() != 0 {
			client.Logger.Debug("found UDT of some sort", "name", kt.Name)
		}

		if tag_ftr.Template_ID() != 0 { //&& !tag_ftr.PreDefined() {
			client.Logger.Debug("Looking up template", "tag name", tag_string)
			u, err := client.ListMembers(uint32(tag_ftr.Template_ID()))
			if err != nil && !client.Connected() {
				return fmt.Errorf("lost connection listing members of %s: %w", tag_string, err)
			}
			if err != nil {
				client.Logger.Error("problem reading member list",
					"string", tag_string,
					"header", tag_hdr,
					"footer", tag_ftr,
					"template ID", tag_ftr.Template_ID(),
					"predefined", tag_ftr.PreDefined(),
					"error", err)
				//return err
			} else {
				kt.UDT = &u
				client.Logger.Debug("Successful member read for %s", "name", kt.Name)
				client.KnownTypes[u.Name] = u
			}
		}
''','''		if id := tag_ftr.Template_ID(); id != 0 {
			kt.UDT, err = client.lookupTemplate(tag_string, id)
			if err != nil {
				return err
			}
		}
'''),(LA,'''// per 1756-PM020H-EN-P page 43''','''// lookupTemplate lists the members of the type of a tag.  A template that can't be listed is left out.
func (client *Client) lookupTemplate(tag string, id uint16) (*UDTDescriptor, error) {
	u, err := client.ListMembers(uint32(id))
	if err == nil {
		client.KnownTypes[u.Name] = u
		return &u, nil
	}
	if !client.Connected() {
		return nil, fmt.Errorf("lost connection listing members of %s: %w", tag, err)
	}
	client.Logger.Error("problem reading member list", "string", tag, "template ID", id, "error", err)
	return nil, nil
}

// per 1756-PM020H-EN-P page 43'''))
ok('v-listall-program-helper',(LA,'''		if len(tag_string) > 8 {
			if strings.HasPrefix(tag_string, "Program:") {
				// we have a program scoped tag.  These are read separately.
				if !fallbackProgramNames {
					continue
				}
				progName := strings.TrimPrefix(tag_string, "Program:")
				if progName == "" {
					// no program name after prefix; skip creating an invalid KnownProgram
					continue
				}
				p := &KnownProgram{Name: progName}
				client.KnownPrograms[strings.ToLower(p.Name)] = p
				_, err := client.ListSubTags(p, 1)
				if err != nil {
					return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
				}

			}
		}
''','''		if progName, isProgram := strings.CutPrefix(tag_string, "Program:"); isProgram && progName != "" {
			// we have a program scoped tag.  These are read separately.
			if !fallbackProgramNames {
				continue
			}
			if err := client.addProgram(progName); err != nil {
				return err
			}
		}
'''),(LA,'''// per 1756-PM020H-EN-P page 43''','''func (client *Client) addProgram(name string) error {
	p := &KnownProgram{Name: name}
	client.KnownPrograms[strings.ToLower(name)] = p
	if _, err := client.ListSubTags(p, 1); err != nil {
		return fmt.Errorf("problem listing sub tags for %s: %w", name, err)
	}
	return nil
}

// per 1756-PM020H-EN-P page 43'''))
ok('v-listall-tail',(LA,'''	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
		next_instance := last_instance + 1
		if next_instance <= start_instance {
			return fmt.Errorf("no new tags in partial response from instance %d", start_instance)
		}
		err = client.ListAllTags(next_instance)
		if err != nil {
			return err
		}
	}

	return nil
''','''	if CIPStatus(data_hdr.Status) != CIPStatus_PartialTransfer {
		return nil
	}
	next_instance := last_instance + 1
	if start_instance >= next_instance {
		return fmt.Errorf("no new tags in partial response from instance %d", start_instance)
	}
	return client.ListAllTags(next_instance)
'''))
ok('v-loadtags-members',(LT,'''					mapValue := make(map[string]any)
					for _, member := range tag.Data[1].Structure.DataValueMember {
						mapValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
						if err != nil {
							return nil, fmt.Errorf("error converting %s.%s.%s: %s", progprefix, tagname, member.NameAttr, err)
						}
					}
					progtags[tagname] = mapValue
					continue
''','''					progtags[tagname], err = structureValue(tag.Data[1].Structure)
					if err != nil {
						return nil, fmt.Errorf("error converting %s.%s.%s", progprefix, tagname, err)
					}
					continue
'''),(LT,'''							myValue := make(map[string]any)
							for _, member := range element.Structure[0].DataValueMember {
								if member.DataTypeAttr == "STRING" {
									myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.CData())
									if err != nil {
										return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
									}
									continue
								}
								myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
								if err != nil {
									return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
								}
							}
							arrValue = append(arrValue, myValue)
							continue
''','''							myValue := make(map[string]any)
							for _, member := range element.Structure[0].DataValueMember {
								text := member.ValueAttr
								if member.DataTypeAttr == "STRING" {
									text = member.CData()
								}
								myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, text)
								if err != nil {
									return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
								}
							}
							arrValue = append(arrValue, myValue)
							continue
'''),(LT,'''func LoadTagComments''','''func structureValue(s *DataStructure) (map[string]any, error) {
	value := make(map[string]any, len(s.DataValueMember))
	for _, member := range s.DataValueMember {
		v, err := L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
		if err != nil {
			return nil, fmt.Errorf("%s: %s", member.NameAttr, err)
		}
		value[member.NameAttr] = v
	}
	return value, nil
}

func LoadTagComments'''))
INC='''			in := connection.InputTag
			if in != nil {
				if in.Comments != nil {
					for _, commentGroup := range in.Comments {
						for _, comment := range commentGroup.Comment {
							name := fmt.Sprintf("%s:I%s", module.NameAttr, comment.OperandAttr)
							c := comment.CData()
							if c == "" {
								continue
							}
							tags[name] = c
						}
					}
				}
			}
			out := connection.OutputTag
			if out != nil {
				if out.Comments != nil {
					for _, commentGroup := range out.Comments {
						for _, comment := range commentGroup.Comment {
							name := fmt.Sprintf("%s:O%s", module.NameAttr, comment.OperandAttr)
							c := comment.CData()
							if c == "" {
								continue
							}
							tags[name] = c
						}
					}
				}
			}

'''
ok('v-modulecomments-helper',(LT,INC,'''			if connection == nil {
				continue
			}
			if in := connection.InputTag; in != nil {
				addOperandComments(tags, module.NameAttr+":I", in.Comments)
			}
			if out := connection.OutputTag; out != nil {
				addOperandComments(tags, module.NameAttr+":O", out.Comments)
			}
'''),(LT,'''func LoadTagComments''','''// addOperandComments adds the comments that aren't empty.
func addOperandComments(to map[string]string, prefix string, groups []*CommentCollectionType) {
	for _, group := range groups {
		for _, comment := range group.Comment {
			if c := comment.CData(); c != "" {
				to[prefix+comment.OperandAttr] = c
			}
		}
	}
}

func LoadTagComments'''),(LT,'''		if module.Communications == nil {
			continue
		}
		if module.Communications.Connections == nil {
			continue
		}
		if module.Communications.Connections.Connection == nil {
			continue
		}
''','''		if module.Communications == nil || module.Communications.Connections == nil {
			continue
		}
'''))
ok('v-modulecomments-groups',(LT,INC,'''			var inputs, outputs []*CommentCollectionType
			if t := connection.InputTag; t != nil {
				inputs = t.Comments
			}
			if t := connection.OutputTag; t != nil {
				outputs = t.Comments
			}
			for suffix, groups := range map[string][]*CommentCollectionType{"I": inputs, "O": outputs} {
				for _, group := range groups {
					for _, comment := range group.Comment {
						c := comment.CData()
						if c == "" {
							continue
						}
						tags[fmt.Sprintf("%s:%s%s", module.NameAttr, suffix, comment.OperandAttr)] = c
					}
				}
			}
'''))
ok('v-typecomments-helpers',(LT,'''		memberDesc := myDescription
		if member.Description != nil {
			if myDescription != "" {
				memberDesc = myDescription + " " + member.Description.CData()
			} else {
				memberDesc = member.Description.CData()
			}
		}
''','''		memberDesc := myDescription
		if member.Description != nil {
			memberDesc = describe(myDescription, member.Description.CData())
		}
'''),(LT,'''			if memberDesc != "" {
				out[fullname] = memberDesc + " " + subDesc
			} else {
				out[fullname] = subDesc
			}
''','''			out[fullname] = describe(memberDesc, subDesc)
'''),(LT,'''			pos := member.BitNumberAttr + num
			// TODO: fix this.  It is a bad assumption that only works for UDTs where the bit packed field starts at bit 0 without any other fields first.
			//       It looks like it's actually the "field index" as the trailing zzz member name and not the bit position
			switch num {
			case 9:
				pos--
			case 18:
				pos -= 2
			case 27:
				pos -= 3
			case 36:
				pos -= 4
			case 45:
				pos -= 5
			case 54:
				pos -= 6
			case 63:
				pos -= 7
			}
''','''			pos := member.BitNumberAttr + num
			if num%9 == 0 && num > 0 && num <= 63 {
				pos -= num / 9
			}
'''),(LT,'''// parents are the types''','''func describe(parent, own string) string {
	if parent == "" {
		return own
	}
	return parent + " " + own
}

// parents are the types'''))
ok('v-typecomments-onpath',(LT,'''	return getTypeComments(types, typeName, nil)
''','''	return getTypeComments(types, typeName, make(map[string]bool))
'''),(LT,'''typeName string, parents []string) map''','''typeName string, parents map[string]bool) map'''),(LT,'''	if !ok || dt == nil || slices.Contains(parents, typeName) {
		return nil
	}
	parents = append(slices.Clone(parents), typeName)
''','''	if !ok || dt == nil || parents[typeName] {
		return nil
	}
	parents[typeName] = true
	defer delete(parents, typeName)
'''),(LT,'''	"slices"
''',''))
ok('v-loadtags-program',(LT,'''	for _, program := range programsOf(controllerOf(l5xData).Programs) {
		if program.Routines == nil {
			continue
		}
		for _, routine := range program.Routines.Routine {
			for _, rungContent := range routine.RLLContent {
				for _, rung := range rungContent.Rung {
					for _, comment := range rung.Comment {
						c := comment.CData()
						if c == "" {
							continue
						}
						task := taskLookup[program.NameAttr]
						location := fmt.Sprintf("%s/%s/%s[%s]", task, program.NameAttr, routine.NameAttr, rung.NumberAttr)
						comments[location] = c
					}
				}
			}
		}
	}
''','''	for _, program := range programsOf(controllerOf(l5xData).Programs) {
		if program.Routines == nil {
			continue
		}
		prefix := taskLookup[program.NameAttr] + "/" + program.NameAttr
		for _, routine := range program.Routines.Routine {
			for _, content := range routine.RLLContent {
				addRungComments(comments, prefix+"/"+routine.NameAttr, content.Rung)
			}
		}
	}
'''),(LT,'''// convert list of data types''','''func addRungComments(comments map[string]string, routine string, rungs []*RungType) {
	for _, rung := range rungs {
		for _, comment := range rung.Comment {
			if c := comment.CData(); c != "" {
				comments[routine+"["+rung.NumberAttr+"]"] = c
			}
		}
	}
}

// convert list of data types'''))
# ---- w-: datatables, attribute reads, programs' tags
D='datatable.go'; LS='listsubtags.go'
ok('w-dt-entry',(D,'''		// Per-tag: dataTypeSize LE16
		sizeBytes := make([]byte, 2)
		binary.LittleEndian.PutUint16(sizeBytes, e.dataTypeSize)
		msgData = append(msgData, sizeBytes...)
		// Per-tag: IOI length in 16-bit words
		words, err := pathWords(e.ioi)
		if err != nil {
			return 0, fmt.Errorf("could not add tag to datatable buffer: %w", err)
		}
		msgData = append(msgData, words)
		// Per-tag: IOI EPath bytes
		msgData = append(msgData, e.ioi...)
''','''		msgData, err = e.appendTo(msgData)
		if err != nil {
			return 0, fmt.Errorf("could not add tag to datatable buffer: %w", err)
		}
'''),(D,'''// DataTableAddTags sends''','''// appendTo adds the size, the length of the path in words and the path.
func (e addTagEntry) appendTo(b []byte) ([]byte, error) {
	words, err := pathWords(e.ioi)
	if err != nil {
		return b, err
	}
	b = binary.LittleEndian.AppendUint16(b, e.dataTypeSize)
	b = append(b, words)
	return append(b, e.ioi...), nil
}

// DataTableAddTags sends'''))
ok('w-dt-buffer',(D,'''	msgData := make([]byte, 0, capacity)

	count,''','''	var msg bytes.Buffer
	msg.Grow(capacity)

	count,'''),(D,'''	msgData = append(msgData, 0x02, 0x00, 0x01, 0x01)
	// Tag count
	msgData = append(msgData, count)
''','''	msg.Write([]byte{0x02, 0x00, 0x01, 0x01, count})
'''),(D,'''		sizeBytes := make([]byte, 2)
		binary.LittleEndian.PutUint16(sizeBytes, e.dataTypeSize)
		msgData = append(msgData, sizeBytes...)
''','''		var size [2]byte
		binary.LittleEndian.PutUint16(size[:], e.dataTypeSize)
		msg.Write(size[:])
'''),(D,'''		msgData = append(msgData, words)
		// Per-tag: IOI EPath bytes
		msgData = append(msgData, e.ioi...)
''','''		msg.WriteByte(words)
		// Per-tag: IOI EPath bytes
		msg.Write(e.ioi)
'''),(D,'''CIPService(0x4E), path, msgData)
	if err != nil {
		return 0, fmt.Errorf("datatable add tag failed''','''CIPService(0x4E), path, msg.Bytes())
	if err != nil {
		return 0, fmt.Errorf("datatable add tag failed'''))
ok('w-dt-request',(D,'''	path := dataTablePath(0x0000)
	data := []byte{0x01, 0x00, 0x03, 0x00, 0x03, 0x00}

	resp, err := client.GenericCIPMessage(CIPService_Create, path, data)
	if err != nil {
		return 0, fmt.Errorf("datatable buffer create failed: %w", err)
	}

	instanceID, err := resp.Uint16()
	if err != nil {
		return 0, fmt.Errorf("could not read instance ID from create response: %w", err)
	}

	return instanceID, nil
''','''	return client.dataTableRequest("create", CIPService_Create, 0, []byte{0x01, 0x00, 0x03, 0x00, 0x03, 0x00})
'''),(D,'''	// Service 0x4E — Add Tag when targeting class 0xB2 buffer instance.
	resp, err := client.GenericCIPMessage(CIPService(0x4E), path, msgData)
	if err != nil {
		return 0, fmt.Errorf("datatable add tag failed: %w", err)
	}

	batchIndex, err := resp.Uint16()
	if err != nil {
		return 0, fmt.Errorf("could not read batch index from add tag response: %w", err)
	}
	return batchIndex, nil
''','''	// Service 0x4E — Add Tag when targeting class 0xB2 buffer instance.
	return client.dataTableRequest("add tag", CIPService(0x4E), instanceID, msgData)
'''),(D,'''	path := dataTablePath(instanceID)

	// Estimate''','''	// Estimate'''),(D,'''// addTagEntry describes''','''// dataTableRequest sends a request that is answered with one number.
func (client *Client) dataTableRequest(what string, service CIPService, instance uint16, data []byte) (uint16, error) {
	resp, err := client.GenericCIPMessage(service, dataTablePath(instance), data)
	if err != nil {
		return 0, fmt.Errorf("datatable %s failed: %w", what, err)
	}
	n, err := resp.Uint16()
	if err != nil {
		return 0, fmt.Errorf("could not read answer to datatable %s: %w", what, err)
	}
	return n, nil
}

// addTagEntry describes'''))
ok('w-dt-decode',(D,'''		strLen := binary.LittleEndian.Uint32(raw[0:4])
		if strLen > uint32(len(raw)-4) {
			strLen = uint32(len(raw) - 4)
		}
		if strLen > 82 {
			strLen = 82
		}
		return string(raw[4 : 4+strLen]), nil
	}
	r := bytes.NewReader(raw)
	return readValue(cipType, r)
''','''		n, text := binary.LittleEndian.Uint32(raw), raw[4:]
		if len(text) > 82 {
			text = text[:82]
		}
		if n < uint32(len(text)) {
			text = text[:n]
		}
		return string(text), nil
	}
	return readValue(cipType, bytes.NewReader(raw))
'''))
ok('w-dt-size',(D,'''	switch t {
	case CIPTypeSTRING:
		return 88, nil
	case CIPTypeStruct:
		return 88, nil
	default:
		s := t.Size()
		if s == 0 {
			return 0, fmt.Errorf("unsupported CIP type %v for datatable buffer", t)
		}
		return uint16(s), nil
	}
''','''	if t == CIPTypeSTRING || t == CIPTypeStruct {
		return 88, nil
	}
	if s := t.Size(); s != 0 {
		return uint16(s), nil
	}
	return 0, fmt.Errorf("unsupported CIP type %v for datatable buffer", t)
'''),(D,'''	if cipType == CIPTypeSTRING || cipType == CIPTypeStruct {
		kt, ok := buf.client.KnownTags[strings.ToLower(tagName)]
		if ok && kt.UDT != nil && kt.UDT.Info.SizeBytes > 0 {
			if kt.UDT.Info.SizeBytes > math.MaxUint16 {
				return 0, fmt.Errorf("type of %d bytes is too big for a datatable buffer", kt.UDT.Info.SizeBytes)
			}
			return uint16(kt.UDT.Info.SizeBytes), nil
		}
	}
	return dataTableTypeSize(cipType)
''','''	if cipType != CIPTypeSTRING && cipType != CIPTypeStruct {
		return dataTableTypeSize(cipType)
	}
	kt, ok := buf.client.KnownTags[strings.ToLower(tagName)]
	if !ok || kt.UDT == nil || kt.UDT.Info.SizeBytes == 0 {
		return dataTableTypeSize(cipType)
	}
	size := kt.UDT.Info.SizeBytes
	if size > math.MaxUint16 {
		return 0, fmt.Errorf("type of %d bytes is too big for a datatable buffer", size)
	}
	return uint16(size), nil
'''))
ok('w-dt-path',(D,'''	path := []byte{0x20, 0xB2, 0x25, 0x00, 0x00, 0x00}
	binary.LittleEndian.PutUint16(path[4:], instanceID)
	return path
''','''	return binary.LittleEndian.AppendUint16([]byte{0x20, 0xB2, 0x25, 0x00}, instanceID)
'''))
ok('w-io-read',('server_io.go','''	b := bytes.Buffer{}
	_, err := Pack(&b, *(p.In))
	if err != nil {
		return nil, err
	}
	dat := b.Bytes()
	return dat, nil
''','''	var out bytes.Buffer
	if _, err := Pack(&out, *p.In); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
'''),('server_io.go','''	t := *p.Out
	return t
''','''	return *p.Out
'''))
ok('w-io-write',('server_io.go','''	err := items[1].DeSerialize(&seq_counter)
	if err != nil {
		return fmt.Errorf("problem getting sequence counter. %w", err)
	}
	err = items[1].DeSerialize(&header)
	if err != nil {
		return fmt.Errorf("problem getting header. %w", err)
	}
	payload := make([]byte, items[1].Header.Length-6)
	err = items[1].DeSerialize(&payload)
	if err != nil {
		return fmt.Errorf("problem getting raw data. %w", err)
	}
	b := bytes.NewBuffer(payload)

	p.OutMutex.Lock()
	defer p.OutMutex.Unlock()

	_, err = Unpack(b, p.Out)
	if err != nil {
		return fmt.Errorf("problem unpacking data into output struct %w", err)
	}

	return nil
''','''	data := &items[1]
	if err := data.DeSerialize(&seq_counter); err != nil {
		return fmt.Errorf("problem getting sequence counter. %w", err)
	}
	if err := data.DeSerialize(&header); err != nil {
		return fmt.Errorf("problem getting header. %w", err)
	}
	payload := make([]byte, data.Header.Length-6)
	if err := data.DeSerialize(&payload); err != nil {
		return fmt.Errorf("problem getting raw data. %w", err)
	}
	return p.store(payload)
'''),('server_io.go','''func (p *IOProvider[Tin, Tout]) TagRead(''','''func (p *IOProvider[Tin, Tout]) store(payload []byte) error {
	p.OutMutex.Lock()
	defer p.OutMutex.Unlock()
	if _, err := Unpack(bytes.NewBuffer(payload), p.Out); err != nil {
		return fmt.Errorf("problem unpacking data into output struct %w", err)
	}
	return nil
}

func (p *IOProvider[Tin, Tout]) TagRead('''))
ok('w-attr-serialize',('getattr.go','''	err = reqitems[1].Serialize(class)
	if err != nil {
		return nil, fmt.Errorf("could not serialize class: %w", err)
	}
	err = reqitems[1].Serialize(instance)
	if err != nil {
		return nil, fmt.Errorf("could not serialize instance: %w", err)
	}
	err = reqitems[1].Serialize(attr)
	if err != nil {
		return nil, fmt.Errorf("could not serialize attribute: %w", err)
	}

	itemdata, err := serializeItems(reqitems)
	if err != nil {
		return nil, err
	}
	hdr, data, err :=''','''	for _, part := range []any{class, instance, attr} {
		if err := reqitems[1].Serialize(part); err != nil {
			return nil, fmt.Errorf("could not serialize path: %w", err)
		}
	}

	itemdata, err := serializeItems(reqitems)
	if err != nil {
		return nil, err
	}
	hdr, data, err :='''),) if False else None
# ---- x-: the tags of a datatable
ok('x-dt-add',(D,'''	cipType, _ := GoVarToCIPType(data)

	ioi, err := buf.client.newIOI(tagName, cipType)
	if err != nil {
		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
	}

	typeSize, err := buf.resolveTypeSize(tagName, cipType)
	if err != nil {
		return fmt.Errorf("tag %q: %w", tagName, err)
	}

	index, err := buf.nextIndex()
	if err != nil {
		return fmt.Errorf("tag %q: %w", tagName, err)
	}

	buf.synched = false

	buf.tags = append(buf.tags, DataTableBufferTag{
		Name:         tagName,
		CIPType:      cipType,
		DataTypeSize: typeSize,
		index:        index,
		ioi:          ioi.Bytes(),
		batchID:      0,
		synched:      false,
		Var:          data,
	})

	return nil
}
''','''	cipType, _ := GoVarToCIPType(data)
	return buf.add(tagName, cipType, data)
}

// add remembers a tag until the tags are sent to the PLC.
func (buf *DataTableBuffer) add(tagName string, cipType CIPType, data any) error {
	ioi, err := buf.client.newIOI(tagName, cipType)
	if err != nil {
		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
	}
	tag := DataTableBufferTag{Name: tagName, CIPType: cipType, ioi: ioi.Bytes(), Var: data}
	if tag.DataTypeSize, err = buf.resolveTypeSize(tagName, cipType); err != nil {
		return fmt.Errorf("tag %q: %w", tagName, err)
	}
	if tag.index, err = buf.nextIndex(); err != nil {
		return fmt.Errorf("tag %q: %w", tagName, err)
	}
	buf.tags = append(buf.tags, tag)
	buf.synched = false
	return nil
}
'''),(D,'''		return fmt.Errorf("datatable buffer not created")
	}

	ioi, err := buf.client.newIOI(tagName, cipType)
	if err != nil {
		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
	}

	typeSize, err := buf.resolveTypeSize(tagName, cipType)
	if err != nil {
		return fmt.Errorf("tag %q: %w", tagName, err)
	}

	index, err := buf.nextIndex()
	if err != nil {
		return fmt.Errorf("tag %q: %w", tagName, err)
	}

	buf.synched = false

	buf.tags = append(buf.tags, DataTableBufferTag{
		Name:         tagName,
		CIPType:      cipType,
		DataTypeSize: typeSize,
		index:        index,
		ioi:          ioi.Bytes(),
		batchID:      0,
		synched:      false,
	})

	return nil
''','''		return fmt.Errorf("datatable buffer not created")
	}
	return buf.add(tagName, cipType, nil)
'''))
ok('x-dt-pending',(D,'''	entries := make([]addTagEntry, 0)
	for i := range buf.tags {
		if buf.tags[i].synched {
			continue
		}
		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi})
	}
	if len(entries) == 0 {
		buf.synched = true
		return nil
	}
''','''	var entries []addTagEntry
	var pending []*DataTableBufferTag
	for i := range buf.tags {
		if t := &buf.tags[i]; !t.synched {
			pending = append(pending, t)
			entries = append(entries, addTagEntry{dataTypeSize: t.DataTypeSize, ioi: t.ioi})
		}
	}
	if len(pending) == 0 {
		buf.synched = true
		return nil
	}
'''),(D,'''	for i := range buf.tags {
		if !buf.tags[i].synched {
			buf.tags[i].batchID = batchID
			buf.tags[i].synched = true
		}
	}
''','''	for _, t := range pending {
		t.batchID, t.synched = batchID, true
	}
'''))
BODY='''		// When we hit a new batch, skip the 2-byte entry header%(C)s.
		if tag.batchID != currentBatch {
			if _, err := resp.Uint16(); err != nil {
				return nil, fmt.Errorf("could not read batch header before tag %%q: %%w", tag.Name, err)
			}
			currentBatch = tag.batchID
		}
'''
SLOT='''		if resp.Pos+int(tag.DataTypeSize) > len(resp.Data) {
			return nil, fmt.Errorf("not enough data for tag %q (index %d): need %d bytes at offset %d, have %d total",
				tag.Name, tag.index, tag.DataTypeSize, resp.Pos, len(resp.Data))
		}
		raw := make([]byte, tag.DataTypeSize)
		copy(raw, resp.Data[resp.Pos:resp.Pos+int(tag.DataTypeSize)])
		resp.Pos += int(tag.DataTypeSize)
'''
ok('x-dt-slot',(D,SLOT,'''		raw, err := takeSlot(resp, tag)
		if err != nil {
			return nil, err
		}
''',2),(D,'''func setGoVar(''','''// takeSlot takes a copy of the bytes of a tag out of a reply.
func takeSlot(resp *CIPItem, tag DataTableBufferTag) ([]byte, error) {
	end := resp.Pos + int(tag.DataTypeSize)
	if end > len(resp.Data) {
		return nil, fmt.Errorf("not enough data for tag %q (index %d): need %d bytes at offset %d, have %d total",
			tag.Name, tag.index, tag.DataTypeSize, resp.Pos, len(resp.Data))
	}
	raw := slices.Clone(resp.Data[resp.Pos:end])
	resp.Pos = end
	return raw, nil
}

func setGoVar('''))
PRE='''	if !buf.created {
		return nil, fmt.Errorf("datatable buffer not created")
	}
	if len(buf.tags) == 0 {
		return nil, fmt.Errorf("no tags in datatable buffer")
	}

	if !buf.synched {
		err := buf.SyncTags()
		if err != nil {
			return nil, fmt.Errorf("could not sync tags before read: %w", err)
		}
	}

	resp, err := buf.client.DataTableReadBuffer(buf.instanceID)
	if err != nil {
		return nil, err
	}

'''
SORT='''	sorted := make([]DataTableBufferTag, len(buf.tags))
	copy(sorted, buf.tags)
	sort.Slice(sorted, func(i, j int) bool {
		return sorted[i].index < sorted[j].index
	})
'''
ok('x-dt-read',(D,PRE,'''	resp, err := buf.fetch()
	if err != nil {
		return nil, err
	}

''',2),(D,'''func setGoVar(''','''// fetch reads the values of the buffer, after sending the tags the PLC doesn't know of.
func (buf *DataTableBuffer) fetch() (*CIPItem, error) {
	switch {
	case !buf.created:
		return nil, fmt.Errorf("datatable buffer not created")
	case len(buf.tags) == 0:
		return nil, fmt.Errorf("no tags in datatable buffer")
	}
	if !buf.synched {
		if err := buf.SyncTags(); err != nil {
			return nil, fmt.Errorf("could not sync tags before read: %w", err)
		}
	}
	return buf.client.DataTableReadBuffer(buf.instanceID)
}

func setGoVar('''))
ok('x-dt-sort',(D,SORT,'''	sorted := slices.Clone(buf.tags)
	slices.SortFunc(sorted, func(a, b DataTableBufferTag) int {
		return int(a.index) - int(b.index)
	})
''',2),(D,'''	"sort"
''',''))
ok('x-dt-remove',(D,'''	idx := -1
	for i, tag := range buf.tags {
		if tag.Name == tagName {
			idx = i
			break
		}
	}
	if idx == -1 {
		return fmt.Errorf("tag %q not found in buffer", tagName)
	}
''','''	idx := slices.IndexFunc(buf.tags, func(t DataTableBufferTag) bool { return t.Name == tagName })
	if idx < 0 {
		return fmt.Errorf("tag %q not found in buffer", tagName)
	}
'''),(D,'''	if buf.tags[idx].synched {
		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
		if err != nil {
			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
		}
	}
''','''	if tag := buf.tags[idx]; tag.synched {
		if err := buf.client.DataTableRemoveTag(buf.instanceID, tag.index); err != nil {
			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
		}
	}
'''),(D,'''	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
	return nil
''','''	buf.tags = slices.Delete(buf.tags, idx, idx+1)
	return nil
'''))
ok('x-dt-close',(D,'''	err := buf.client.DeleteDataTableBuffer(buf.instanceID)
	buf.created = false
	if err != nil {
		return fmt.Errorf("could not delete datatable buffer: %w", err)
	}
	return nil
''','''	buf.created = false
	if err := buf.client.DeleteDataTableBuffer(buf.instanceID); err != nil {
		return fmt.Errorf("could not delete datatable buffer: %w", err)
	}
	return nil
'''))
ok('x-dt-typed',(D,'''		if len(expanded) > 1 {
			// Multi-element: collapse into a slice.
			slice := make([]any, len(expanded))
			for i, name := range expanded {
				v, ok := rawValues[name]
				if !ok {
					return nil, fmt.Errorf("expanded tag %q not found in buffer response", name)
				}
				slice[i] = v
				consumed[name] = true
			}
			result[baseName] = slice
		} else if len(expanded) == 1 {
			// Scalar from TagGroup: pass through directly.
			v, ok := rawValues[expanded[0]]
			if !ok {
				return nil, fmt.Errorf("tag %q not found in buffer response", expanded[0])
			}
			result[baseName] = v
			consumed[expanded[0]] = true
		}
''','''		if len(expanded) == 0 {
			continue
		}
		values := make([]any, 0, len(expanded))
		for _, name := range expanded {
			v, ok := rawValues[name]
			if !ok {
				return nil, fmt.Errorf("expanded tag %q not found in buffer response", name)
			}
			values = append(values, v)
			consumed[name] = true
		}
		if len(values) == 1 {
			// Scalar from TagGroup: pass through directly.
			result[baseName] = values[0]
		} else {
			result[baseName] = values
		}
'''))
ok('x-dt-group',(D,'''		if def.Elements > 1 {
			expanded := expandArrayTag(resolvedName, def.Elements)
			buf.expansions[resolvedName] = expanded
			for _, name := range expanded {
				tagMap[name] = def.Type
			}
		} else {
			buf.expansions[resolvedName] = []string{resolvedName}
			tagMap[resolvedName] = def.Type
		}
''','''		names := []string{resolvedName}
		if def.Elements > 1 {
			names = expandArrayTag(resolvedName, def.Elements)
		}
		buf.expansions[resolvedName] = names
		for _, name := range names {
			tagMap[name] = def.Type
		}
'''))
ok('x-attr-path',('getattr.go','''	pl := class.Len() + instance.Len() + attr.Len()
	pl = pl / 2
''','''	path, err := Serialize(class, instance, attr)
	if err != nil {
		return nil, fmt.Errorf("could not serialize path: %w", err)
	}
	pl, err := pathWords(path.Bytes())
	if err != nil {
		return nil, fmt.Errorf("could not serialize path: %w", err)
	}
'''),('getattr.go','''		PathLength:    byte(pl),
''','''		PathLength:    pl,
'''),('getattr.go','''	err = reqitems[1].Serialize(class)
	if err != nil {
		return nil, fmt.Errorf("could not serialize class: %w", err)
	}
	err = reqitems[1].Serialize(instance)
	if err != nil {
		return nil, fmt.Errorf("could not serialize instance: %w", err)
	}
	err = reqitems[1].Serialize(attr)
	if err != nil {
		return nil, fmt.Errorf("could not serialize attribute: %w", err)
	}
''','''	err = reqitems[1].Serialize(path.Bytes())
	if err != nil {
		return nil, fmt.Errorf("could not serialize path: %w", err)
	}
'''))
ok('x-services-struct',('listservices.go','''	err := binary.Read(buf, binary.LittleEndian, &s.EncapProtocolVersion)
	if err != nil {
		return fmt.Errorf("problem reading list services response. field EncapProtocolVersion %w", err)
	}

	err = binary.Read(buf, binary.LittleEndian, &s.Capabilities)
	if err != nil {
		return fmt.Errorf("problem reading list services response. field CapFlags %w", err)
	}

	// The name field is a 16 byte null terminated string
	name := make([]byte, 16)
	err = binary.Read(buf, binary.LittleEndian, &name)
	if err != nil {
		return fmt.Errorf("problem reading list services response. field Name %w", err)
	}
	// Remove any trailing NULL characters from the name
	s.Name = string(bytes.TrimRight(name, "\\x00"))
''','''	var fixed struct {
		Version      uint16
		Capabilities ServiceCapabilityFlags
		Name         [16]byte // zero padded
	}
	if err := binary.Read(buf, binary.LittleEndian, &fixed); err != nil {
		return fmt.Errorf("problem reading list services response. %w", err)
	}
	s.EncapProtocolVersion = fixed.Version
	s.Capabilities = fixed.Capabilities
	s.Name = string(bytes.TrimRight(fixed.Name[:], "\\x00"))
'''))
# ---- y-: faults in the same parts
bad('y-dt-close-keeps','C29',(D,'''	buf.created = false
	if err != nil {
		return fmt.Errorf("could not delete datatable buffer: %w", err)
	}
	return nil
''','''	if err != nil {
		return fmt.Errorf("could not delete datatable buffer: %w", err)
	}
	buf.created = false
	return nil
'''))
bad('y-dt-sync-all','C29',(D,'''	for i := range buf.tags {
		if buf.tags[i].synched {
			continue
		}
		entries = append(entries,''','''	for i := range buf.tags {
		if buf.tags[i].synched && buf.tags[i].batchID != 0 {
			buf.tags[i].synched = true
			continue
		}
		buf.tags[i].synched = true
		entries = append(entries,'''))
bad('y-dt-slot-short','C29',(D,'''		raw := make([]byte, tag.DataTypeSize)
		copy(raw, resp.Data[resp.Pos:resp.Pos+int(tag.DataTypeSize)])
		resp.Pos += int(tag.DataTypeSize)
		result[tag.Name] = raw
''','''		raw := make([]byte, tag.DataTypeSize)
		copy(raw, resp.Data[resp.Pos:resp.Pos+int(tag.DataTypeSize)])
		resp.Pos += tag.CIPType.Size()
		result[tag.Name] = raw
'''))
bad('y-dt-lreal','C17',(D,'''	case CIPTypeStruct:
		return 88, nil
	default:''','''	case CIPTypeStruct:
		return 88, nil
	case CIPTypeLWORD:
		return 4, nil
	default:'''))
bad('y-bit-offset','C35',(LT,'''if len(offset_str) > 2 {''','''if offset_str != "" {'''))
bad('y-connections-nil','C35',(LT,'''		if module.Communications.Connections == nil {
			continue
		}
		if module.Communications.Connections.Connection == nil {
			continue
		}
''','''		if len(module.Communications.Connections.Connection) == 0 {
			continue
		}
'''))
bad('y-type-self','C35',(LT,'''	parents = append(slices.Clone(parents), typeName)
''','''	parents = append(slices.Clone(parents), dt.UIdAttr)
'''))
bad('y-type-self2','C35',(LT,'''getTypeComments(types, member.DataTypeAttr, parents)''','''getTypeComments(types, member.DataTypeAttr, parents[1:])'''))
bad('y-array-structure','C35',(LT,'''						if len(element.Structure) > 0 {''','''						if element.Structure != nil {'''))
bad('y-members-count','C13',(LM,'''	descriptor.Members = make([]UDTMemberDescriptor, template_info.MemberCount)
''','''	descriptor.Members = make([]UDTMemberDescriptor, bytes.Count(data2.Bytes(), []byte{0}))
'''))
bad('y-template-len','C20',(LM,'''	if template_bytes < 0 || template_bytes > math.MaxUint16 {
''','''	if template_bytes > math.MaxUint16 {
'''))
bad('y-members-alloc','C34',(LM,'''	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
''','''	memberInfos := make([]msgMemberInfo, template_info.MemberCount, template_info.SizeBytes)
'''))
bad('y-io-wrong-lock','C11',('server_io.go','''	p.InMutex.Lock()
	defer p.InMutex.Unlock()
	p.In = &newin''','''	p.OutMutex.Lock()
	defer p.OutMutex.Unlock()
	p.In = &newin'''))
bad('y-io-early-return','C10',('server_io.go','''	p.OutMutex.Lock()
	defer p.OutMutex.Unlock()

	_, err = Unpack(b, p.Out)
	if err != nil {
		return fmt.Errorf("problem unpacking data into output struct %w", err)
	}

	return nil
''','''	p.OutMutex.Lock()
	_, err = Unpack(b, p.Out)
	if err != nil {
		return fmt.Errorf("problem unpacking data into output struct %w", err)
	}
	p.OutMutex.Unlock()

	return nil
'''))
bad('y-dt-count','C20',(D,'''	count, err := wireLen8(len(entries))
	if err != nil {
		return 0, fmt.Errorf("too many tags to add at once: %w", err)
	}
''','''	if len(entries) > math.MaxUint8+1 {
		return 0, fmt.Errorf("too many tags to add at once: %d", len(entries))
	}
	count := byte(len(entries))
'''))
bad('y-dt-path-native','C32',(D,'''	binary.LittleEndian.PutUint16(path[4:], instanceID)
''','''	binary.NativeEndian.PutUint16(path[4:], instanceID)
'''))
bad('y-dt-sync-lost','C28',(D,'''	if !buf.synched {
		err := buf.SyncTags()
		if err != nil {
			return nil, fmt.Errorf("could not sync tags before read: %w", err)
		}
	}
''','''	if !buf.synched {
		err := buf.SyncTags()
		if err != nil && len(buf.tags) == 1 {
			return nil, fmt.Errorf("could not sync tags before read: %w", err)
		}
	}
'''))
bad('y-tagged-index','C15',(D,'''fieldVal.Kind() == reflect.Slice && fieldVal.Len() > idx {''','''fieldVal.Kind() == reflect.Slice || fieldVal.Len() > idx {'''))
bad('y-subtags-status','C06',(LS,'''	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) {
''','''	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) && len(client.KnownTags) == 0 {
'''))
bad('y-subtags-progress','C08',(LS,'''		if next_instance <= start_instance {
''','''		if next_instance < start_instance {
'''))
bad('y-attr-status','C06',('getattr.go','''	if resphdr.Status != uint16(CIPStatus_OK) {
''','''	if resphdr.Status != uint16(CIPStatus_OK) && resphdr.Status != uint16(CIPStatus_PartialTransfer) {
'''))
bad('y-template-status','C06',(LM,'''	if mihdr.Status != uint16(CIPStatus_OK) {
''','''	if CIPStatus(mihdr.Status>>8) != CIPStatus_OK {
'''))
bad('y-lost-connection','C05',(LM,'''			if err != nil && !client.Connected() {
				return UDTDescriptor{}, fmt.Errorf("lost connection listing members of %s: %w", fieldname, err)
			}
''',''''''))
