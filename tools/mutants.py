"""Small behaviour-breaking edits used to measure the checks (never read by a check).

(id, property expected to notice, file, old text, new text[, occurrence])
"""
U = "src/app/ua/transport/server/"
C = "src/app/ua/securechannel/channel/"
S = "src/app/ua/service/"
R = "src/app/common/reactor/"
M = "src/app/modbus/"
K = "src/app/controller/"
B = "src/app/common/ua/common/"

MUTANTS = [
 # --- UA transport
 ("ua-msg-chan-unchecked", "P11", U+"UaTcpConnection.cpp", "        if (not associatedSecureChannelId || *associatedSecureChannelId != hdr.secureChannelId)", "        if (not associatedSecureChannelId)", 1),
 ("ua-clo-chan-unchecked", "P11", U+"UaTcpConnection.cpp", "        if (not associatedSecureChannelId || *associatedSecureChannelId != hdr.secureChannelId)", "        if (not associatedSecureChannelId)", 2),
 ("ua-send-chan-unchecked", "P11", U+"UaTcpConnection.cpp", "    if (not associatedSecureChannelId || *associatedSecureChannelId != msg.secureChannelId)", "    if (not associatedSecureChannelId)", 1),
 ("ua-forward-unchecked", "P11", U+"UaTcpServer.cpp", "    if (connection.getConnectionId() != msg.connectionId)", "    if (toConnectionEntityId(connection.getConnectionId()) != toConnectionEntityId(msg.connectionId))"),
 ("ua-opnrsp-late-leak", "P13", U+"UaTcpServer.cpp", "    if (not forward(msg))\n", "    if (not forward(msg) && msg.length == 0)\n"),
 ("ua-release-assoc-kept", "P11", U+"UaTcpConnection.cpp", "    associatedSecureChannelId = {};\n", ""),
 ("ua-release-timer-kept", "P16", U+"UaTcpConnection.cpp", "    timer.reset();\n", ""),
 ("ua-connid-not-bumped", "P11", U+"UaTcpConnection.cpp", "    connectionId += uaConnectionIdStep;\n", ""),
 ("ua-hello-timer-none", "P10", U+"UaTcpConnectionReceiveHello.cpp", "    fsm.startTimer(opcUaTcpReceiveTimeout);\n", ""),
 ("ua-connected-timer-norestart", "P13", U+"UaTcpConnectionConnected.cpp", "            fsm.startTimer(opcUaTcpReceiveTimeout);\n", ""),
 ("ua-connected-timer-onpartial", "P10", U+"UaTcpConnectionConnected.cpp", "        case UaTcpConnection::Result::noerror:\n            return;", "        case UaTcpConnection::Result::noerror:\n            fsm.startTimer(opcUaTcpReceiveTimeout);\n            return;"),
 ("ua-hello-no-drain", "P10", U+"UaTcpConnectionReceiveHello.cpp", "        fsm.getState().onDataReceived(fsm);\n", ""),
 ("ua-connected-one-msg", "P10", U+"UaTcpConnectionConnected.cpp", "            fsm.receivePreaction();\n        }\n        break;", "            fsm.receivePreaction();\n        }\n        return;"),
 ("ua-error-noind", "P13", U+"UaTcpConnectionConnected.cpp", "void UaTcpConnectionConnected::onError(UaTcpConnection& fsm)\n{\n    fsm.sendUaConnectionReleaseInd();", "void UaTcpConnectionConnected::onError(UaTcpConnection& fsm)\n{"),
 ("ua-timer-noind", "P13", U+"UaTcpConnectionConnected.cpp", "void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)\n{\n    fsm.sendUaConnectionReleaseInd();", "void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)\n{"),
 ("ua-closed-noind", "P13", U+"UaTcpConnectionConnected.cpp", "            fsm.sendUaConnectionReleaseInd();\n            fsm.transit", "            fsm.transit"),
 ("ua-ind-wrong-chan", "P11", U+"UaTcpConnection.cpp", "    msgStore.getMsg().secureChannelId = *associatedSecureChannelId;", "    msgStore.getMsg().secureChannelId = uid;"),
 ("ua-hdr-size-short", "P10", U+"UaTcpConnection.cpp", "        if (expected < messageHeaderSize || expected > opcUaMaxReceivedMessageSize)", "        if (expected > opcUaMaxReceivedMessageSize)"),
 ("ua-hello-undecoded", "P10", U+"UaTcpConnection.cpp", "        LM(UATL, LE, \"Uid-%u, invalid HelloMessage: %s\", connectionId, e.what());\n        return Result::error;", "        LM(UATL, LE, \"Uid-%u, invalid HelloMessage: %s\", connectionId, e.what());"),
 ("ua-unknown-type-ignored", "P10", U+"UaTcpConnection.cpp", "        LM(UATL, LE, \"Uid-%u, unexpected\", connectionId);\n        return UaTcpConnection::Result::error;", "        LM(UATL, LE, \"Uid-%u, unexpected\", connectionId);\n        return UaTcpConnection::Result::done;"),
 ("ua-accept-reject-none", "P13", U+"UaTcpServer.cpp", "        LM(UATL, LE, \"Uid=%u, Can not alloc tcp connection\", uid);\n        acceptor->reject();", "        LM(UATL, LE, \"Uid=%u, Can not alloc tcp connection\", uid);"),
 ("ua-accept-fail-leak", "P13", U+"UaTcpServer.cpp", "        LM(UATL, LE, \"Uid=%u, can not accept: %s\", uid, e.what());\n        connection.release();", "        LM(UATL, LE, \"Uid=%u, can not accept: %s\", uid, e.what());"),
 ("ua-prepare-fail-leak", "P13", U+"UaTcpServer.cpp", "        LM(UATL, LE, \"Uid=%u, can not prepare connection: %s\", uid, e.what());\n        connection.release();", "        LM(UATL, LE, \"Uid=%u, can not prepare connection: %s\", uid, e.what());"),
 ("ua-msg-chunk", "P10", U+"UaTcpConnection.cpp", "    hdr.messageType[1] = 'S';", "    hdr.messageType[1] = 's';"),
 ("ua-send-fail-ignored", "P13", U+"UaTcpConnectionConnected.cpp", "    case UaTcpConnection::Result::error:\n    {\n        fsm.sendUaConnectionReleaseInd();\n        fsm.transit<UaTcpConnectionInit>();\n    }\n    break;\n    }\n}\n\nvoid UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionReleaseReq", "    case UaTcpConnection::Result::error:\n    {\n    }\n    break;\n    }\n}\n\nvoid UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionReleaseReq"),
 ("ua-opn-replace-none", "P13", U+"UaTcpConnection.cpp", "    if (associatedSecureChannelId && *associatedSecureChannelId != msg.secureChannelId)\n    {\n        sendUaConnectionReleaseInd();\n    }\n", ""),
 ("ua-opn-assoc-first", "P11", U+"UaTcpConnection.cpp", "    associatedSecureChannelId = msg.secureChannelId;\n", "    if (not associatedSecureChannelId) associatedSecureChannelId = msg.secureChannelId;\n"),
 # --- secure channel
 ("sc-seq-ge", "P11", C+"UaServerSecureChannel.cpp", "    if (rxSeqHdr.sequenceNumber != (storedRxSequenceNumber + 1))", "    if (rxSeqHdr.sequenceNumber < (storedRxSequenceNumber + 1))", 2),
 ("sc-seq-notstored", "P11", C+"UaServerSecureChannel.cpp", "    storedRxSequenceNumber = rxSeqHdr.sequenceNumber;\n\n    reactor::MsgStore<MsgUaEncoded", "    storedRxSequenceNumber += (rxSeqHdr.sequenceNumber & 7) != 7;\n\n    reactor::MsgStore<MsgUaEncoded"),
 ("sc-clo-token", "P11", C+"UaServerSecureChannel.cpp", "    if (rxSecHdr.tokenId != storedTokenId)", "    if (rxSecHdr.tokenId > storedTokenId)", 1),
 ("sc-msg-token", "P11", C+"UaServerSecureChannel.cpp", "    if (rxSecHdr.tokenId != storedTokenId)", "    if (rxSecHdr.tokenId > storedTokenId)", 2),
 ("sc-clo-seq", "P11", C+"UaServerSecureChannel.cpp", "    if (rxSeqHdr.sequenceNumber != (storedRxSequenceNumber + 1))", "    if (rxSeqHdr.sequenceNumber < storedRxSequenceNumber)", 1),
 ("sc-release-seqtx", "P11", C+"UaServerSecureChannel.cpp", "    sequenceNumberTx = 0;\n", ""),
 ("sc-release-session", "P12", C+"UaServerSecureChannel.cpp", "    sessionId = {};\n", ""),
 ("sc-release-conn", "P11", C+"UaServerSecureChannel.cpp", "    connectionId = {};\n", ""),
 ("sc-isconn", "P11", C+"UaServerSecureChannel.cpp", "    if (connectionId && *connectionId == val)", "    if (connectionId && *connectionId % uaConnectionIdStep == val % uaConnectionIdStep)"),
 ("sc-assoc-conn", "P12", C+"UaServerSecureChannel.cpp", "    if (not connectionId || *connectionId != msgReq.hdr.connectionId)", "    if (not connectionId)", 1),
 ("sc-send-conn", "P11", C+"UaServerSecureChannel.cpp", "    if (not connectionId || *connectionId != msgReq.hdr.connectionId)", "    if (not connectionId)", 2),
 ("sc-token-const", "P11", C+"UaServerSecureChannel.cpp", "    storedTokenId = ::rand() % 0x7FFFFFFF;", "    if (not storedTokenId) storedTokenId = ::rand() % 0x7FFFFFFF;"),
 ("sc-reqid-opn", "P13", C+"UaServerSecureChannel.cpp", "    txSeqHdr.requestId = rxSeqHdr.requestId;", "    txSeqHdr.requestId = rxSeqHdr.sequenceNumber;", 1),
 ("sc-reqid-clo", "P13", C+"UaServerSecureChannel.cpp", "    txSeqHdr.requestId = rxSeqHdr.requestId;", "    txSeqHdr.requestId = rxSeqHdr.sequenceNumber;", 2),
 ("sc-seqtx-clo", "P11", C+"UaServerSecureChannel.cpp", "    txSeqHdr.sequenceNumber = sequenceNumberTx++;", "    txSeqHdr.sequenceNumber = sequenceNumberTx;", 2),
 ("sc-seqtx-opn", "P11", C+"UaServerSecureChannel.cpp", "    txSeqHdr.sequenceNumber = sequenceNumberTx++;", "    txSeqHdr.sequenceNumber = sequenceNumberTx;", 1),
 ("sc-msg-fail-keep", "P11", C+"UaServerSecureChannelEstablished.cpp", "        fsm.sendUaConnectionReleaseReq(msg.connectionId);\n        fsm.transit<UaServerSecureChannelInit>();\n    }\n}\n\n} //", "    }\n}\n\n} //"),
 ("sc-msg-fail-noclose", "P11", C+"UaServerSecureChannelEstablished.cpp", "        fsm.sendUaConnectionReleaseReq(msg.connectionId);\n        fsm.transit<UaServerSecureChannelInit>();\n    }\n}\n\n} //", "        fsm.transit<UaServerSecureChannelInit>();\n    }\n}\n\n} //"),
 ("sc-msg-fail-leak", "P13", C+"UaServerSecureChannelEstablished.cpp", "        fsm.sendUaConnectionReleaseReq(msg.connectionId);\n        fsm.transit<UaServerSecureChannelInit>();\n    }\n}\n\n} //", "        fsm.sendUaConnectionReleaseReq(msg.connectionId);\n    }\n}\n\n} //"),
 ("sc-clo-noclose", "P13", C+"UaServerSecureChannelEstablished.cpp", "    fsm.sendUaConnectionReleaseReq(msg.connectionId);\n    fsm.transit", "    fsm.transit"),
 ("sc-clo-unchecked", "P11", C+"UaServerSecureChannelEstablished.cpp", "    if (not fsm.isConnection(msg.connectionId))\n    {\n        return;\n    }\n    try", "    try", 1),
 ("sc-ind-unchecked", "P11", C+"UaServerSecureChannelEstablished.cpp", "    if (not fsm.isConnection(msg.connectionId))\n    {\n        return;\n    }\n    fsm.transit", "    fsm.transit"),
 ("sc-opn-fail-leak", "P13", C+"UaServerSecureChannelInit.cpp", "        fsm.sendUaConnectionReleaseReq(msg.connectionId);\n        fsm.release();", "        fsm.sendUaConnectionReleaseReq(msg.connectionId);"),
 ("sc-opn-fail-noclose", "P11", C+"UaServerSecureChannelInit.cpp", "        fsm.sendUaConnectionReleaseReq(msg.connectionId);\n        fsm.release();", "        fsm.release();"),
 ("sc-full-noclose", "P13", "src/app/ua/securechannel/UaSecureChannel.cpp", "        Sender::sendMsg(msgStore);\n        return;", "        return;"),
 ("sc-lifetime", "P13", C+"UaServerSecureChannel.cpp", "    rsp.msg.securityToken.secureChannelId = secureChannelId;", "    rsp.msg.securityToken.secureChannelId = storedTokenId;"),
 ("sc-sessid-zero", "P12", C+"UaServerSecureChannel.cpp", "    msgRsp.hdr.sessionId = sessionId ? *sessionId : invalidSuid;", "    msgRsp.hdr.sessionId = sessionId ? *sessionId : secureChannelId;"),
 # --- service
 ("ss-token-close", "P12", S+"session/UaSessionService.cpp", "        if (not session.isAuthenticated(token))\n", "        if (0 == token)\n", 2),
 ("ss-token-activate", "P12", S+"session/UaSessionService.cpp", "        if (not session.isAuthenticated(token))\n", "        if (0 == token)\n", 1),
 ("ss-token-same", "P12", S+"session/UaSession.cpp", "    authenticationToken += (1u + ::rand() % 0x7FFFFF) * 0x100u;", "    authenticationToken = sessionId + 0x100u;"),
 ("ss-read-chan", "P12", S+"session/UaSession.cpp", "    if (not secureChannelId || *secureChannelId != hdr.secureChannelId)", "    if (not secureChannelId)"),
 ("ss-release-chan", "P12", S+"session/UaSession.cpp", "    secureChannelId = {};\n", ""),
 ("ss-created-read", "P12", S+"session/UaSessionCreated.cpp", "    fsm.receive(hdr, req);\n    fsm.transit<UaSessionInit>();", "    fsm.receive(hdr, req);"),
 ("ss-close-keep", "P12", S+"session/UaSessionActivated.cpp", "    fsm.transit<UaSessionInit>();", ""),
 ("ss-expire-early", "P12", S+"session/UaSession.cpp", "    if (expiration && *expiration < getMonotonicMsec())", "    if (expiration)"),
 ("ss-expire-never", "P13", S+"session/UaSession.cpp", "    if (expiration && *expiration < getMonotonicMsec())", "    if (expiration && *expiration + 3600000 < getMonotonicMsec())"),
 ("ss-read-noprolong", "P12", S+"session/UaSession.cpp", "    prolong();\n    handler();", "    handler();"),
 ("ss-act-noprolong", "P12", S+"session/UaSession.cpp", "    prolong();\n\n    UaActivateSessionRspCont", "    UaActivateSessionRspCont"),
 ("ss-act-nomove", "P12", S+"session/UaSessionActivated.cpp", "    fsm.receive(hdr, req);\n}\n\nvoid UaSessionActivated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hdr, UaCloseSessionReq", "}\n\nvoid UaSessionActivated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hdr, UaCloseSessionReq"),
 ("ss-handle-read", "P13", S+"attribute/UaAttributeService.cpp", "    rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;", "    rsp.msg.responseHdr.requestHandle = hdr.requestId;"),
 ("ss-handle-close", "P13", S+"session/UaSession.cpp", "    UaCloseSessionRspCont rsp;\n    rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();\n    rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;", "    UaCloseSessionRspCont rsp;\n    rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();"),
 ("ss-time-zero", "P13", S+"discovery/UaGetEndpoints.cpp", "    rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();\n", ""),
 ("ss-rsp-toactive", "P12", S+"session/UaSession.cpp", "    UaCloseSessionRspCont rsp;", "    if (not secureChannelId) return Result::fail;\n    UaCloseSessionRspCont rsp;"),
 ("ss-timeout-unclamped", "P13", S+"session/UaSession.cpp", "requestedTimeout >= minSessionTimeout ? std::min(requestedTimeout, maxSessionTimeout) : minSessionTimeout", "requestedTimeout"),
 ("ss-pool-lifo", "P12", B+"UaEntityPool.hpp", "        return *(pool.at(uid - 1));", "        return *(pool[uid - 1]);"),
 # --- codec
 ("cd-string-len", "P14", B+"OpcUaSduBuffer.cpp", "    if (tail >= head)", "    if (tail > head)"),
 ("cd-write-len", "P14", B+"OpcUaSduBuffer.cpp", "    if (head >= maxPacketLen)", "    if (head > maxPacketLen)"),
 # --- modbus client
 ("mc-transact16", "P05", M+"client/ModbusClient.cpp", "    if (static_cast<std::uint16_t>(aduReq.transactId) != aduRsp.transactId)", "    if (aduReq.transactId != aduRsp.transactId)"),
 ("mc-addr-unchecked", "P06", M+"client/ModbusClient.cpp", "    if (aduReq.addr != aduRsp.addr)", "    if (aduReq.addr > aduRsp.addr)"),
 ("mc-func-unchecked", "P06", M+"client/ModbusClient.cpp", "    if (aduReq.func != aduRsp.func)", "    if (aduReq.func != aduRsp.func && aduRsp.numBytes == 0)"),
 ("mc-rspexpected", "P06", M+"client/ModbusClient.cpp", "    if (not rspExpected || aduStorage.empty())", "    if (aduStorage.empty())"),
 ("mc-rspexp-keep", "P05", M+"client/ModbusClient.cpp", "            rspExpected = false;\n            aduStorage.pop();", "            aduStorage.pop();"),
 ("mc-connect-noreset", "P06", M+"client/ModbusClient.cpp", "    pduBuf.reset();\n    try", "    try"),
 ("mc-encode-nopop", "P05", M+"client/ModbusClient.cpp", "        provideRspError(aduStorage.front());\n        aduStorage.pop();\n        return Status::codecError;", "        provideRspError(aduStorage.front());\n        return Status::codecError;"),
 ("mc-codec-connected", "P05", M+"client/ModbusClientSend.cpp", "        fsm.getEntity().startTimer(ModbusClient::sendDelay);\n    }\n    break;\n    case Status::error", "        fsm.transit<ModbusClientConnected>();\n    }\n    break;\n    case Status::error"),
 ("mc-senderr-noclose", "P07", M+"client/ModbusClientSend.cpp", "        fsm.getEntity().close();\n", "", 2),
 ("mc-rcv-noclose", "P07", M+"client/ModbusClientReceive.cpp", "        fsm.getEntity().close();\n", ""),
 ("mc-conn-err-stay", "P07", M+"client/ModbusClientConnected.cpp", "        fsm.transit<ModbusClientBackoff>();\n", ""),
 ("mc-timeout-all", "P05", M+"client/ModbusClientReceive.cpp", "    fsm.getEntity().provideRspTimeout();\n    fsm.transit<ModbusClientSend>();", "    fsm.getEntity().provideRspTimeout();\n    fsm.transit<ModbusClientConnected>();"),
 ("mc-backoff-queue", "P05", M+"client/ModbusClientBackoff.cpp", "    fsm.getEntity().provideRspError();\n", ""),
 ("mc-connect-queue", "P05", M+"client/ModbusClientConnect.cpp", "void ModbusClientConnect::onReceiveTransactionReq(ModbusClientFsm& fsm)\n{\n    fsm.getEntity().provideRspError();", "void ModbusClientConnect::onReceiveTransactionReq(ModbusClientFsm&)\n{"),
 ("mc-connect-notimer", "P07", M+"client/ModbusClientConnect.cpp", "    fsm.getEntity().startTimer(ModbusClient::connectTimeout);\n    fsm.getEntity().connect();", "    fsm.getEntity().connect();"),
 ("mc-storage-onebuf", "P06", M+"client/ModbusAduStorage.cpp", "        adus[id].data = &buffer[maxAduLen * id];", "        adus[id].data = adu.data;"),
 ("mc-error-rsp-status", "P05", M+"client/ModbusClient.cpp", "    rsp.error = error;\n    rsp.status = MsgStatus::success;", "    rsp.error = ModbusError::noerror;\n    rsp.status = MsgStatus::success;"),
 ("mc-rcv-postaction", "P06", M+"client/ModbusClientReceive.cpp", "    fsm.getEntity().receivePostaction();\n", ""),
 ("mc-invalid-client", "P05", M+"Modbus.cpp", "            Sender::sendMsg(msgStore);\n            continue;", "            continue;"),
 # --- modbus server
 ("ms-transact", "P08", M+"server/session/ModbusSession.cpp", "    if (rsp.transactId != storedAdu.transactId)", "    if (rsp.transactId > storedAdu.transactId)"),
 ("ms-timeout-nodrain", "P08", M+"server/session/ModbusSessionWaitModbusAduRsp.cpp", "    LM(MODBUS, LE, \"onTimer\");\n    fsm.transit<ModbusSessionConnected>();\n    fsm.getState().onDataReceived(fsm);", "    LM(MODBUS, LE, \"onTimer\");\n    fsm.transit<ModbusSessionConnected>();"),
 ("ms-rsp-nodrain", "P08", M+"server/session/ModbusSessionWaitModbusAduRsp.cpp", "        fsm.transit<ModbusSessionConnected>();\n        fsm.getState().onDataReceived(fsm);", "        fsm.transit<ModbusSessionConnected>();"),
 ("ms-wait-notimer", "P09", M+"server/session/ModbusSessionWaitModbusAduRsp.cpp", "    fsm.getEntity().startTimer(ModbusSession::aduRspTimeout);\n", ""),
 ("ms-conn-notimer", "P09", M+"server/session/ModbusSessionConnected.cpp", "    fsm.getEntity().startTimer(ModbusSession::inactiveTimeout);\n", ""),
 ("ms-senderr-done", "P09", M+"server/session/ModbusSession.cpp", "        LM(MODBUS, LI, \"Client-%u, send return: %d\", uid, rc);\n        return Result::error;", "        LM(MODBUS, LI, \"Client-%u, send return: %d\", uid, rc);\n        return Result::noerror;"),
 ("ms-numitems", "P08", M+"server/session/ModbusSession.cpp", "    aduRsp.numItems = storedAdu.numItems;", "    aduRsp.numItems = rsp.numBytes;"),
 ("ms-accept-leak", "P09", M+"server/ModbusServer.cpp", "        LM(MODBUS, LE, \"Server-%u, can not accept: %s\", id, e.what());\n        session.releaseSession();", "        LM(MODBUS, LE, \"Server-%u, can not accept: %s\", id, e.what());"),
 ("ms-reject-none", "P09", M+"server/ModbusServer.cpp", "        LM(MODBUS, LE, \"Server-%u, can not alloc session from pool\", id);\n        acceptor->reject();", "        LM(MODBUS, LE, \"Server-%u, can not alloc session from pool\", id);"),
 ("ms-decode-buf", "P08", M+"server/session/ModbusSession.cpp", "        bool const decoded = codec.decode(storedAdu);\n        pduBuf.reset();", "        bool const decoded = codec.decode(storedAdu);\n        if (decoded) pduBuf.reset();"),
 ("ms-datalen", "P14", M+"ModbusCodec.cpp", "    return (aduPktLen() + aduHdrLen) < maxAduLen;", "    return aduPktLen() < 2 * maxAduLen;"),
 ("mc-codec-odd", "P14", M+"ModbusCodec.cpp", "        if (pktLen != adu.numBytes + 3)\n", "        if (pktLen < 3)\n"),
 ("ms-preset-len", "P08", M+"ModbusCodec.cpp", "        if (pktLen != 7 + adu.numBytes)", "        if (pktLen > 7 + adu.numBytes)"),
 ("ms-addr-hi", "P08", M+"ModbusCodec.cpp", "    if (std::min(adu.addr, maxAddr) != adu.addr || std::max(adu.addr, minAddr) != adu.addr)\n    {\n        LM(MODBUS, LE, \"ADU decode", "    if (std::max(adu.addr, minAddr) != adu.addr)\n    {\n        LM(MODBUS, LE, \"ADU decode"),
 ("mc-numitems-max", "P06", M+"ModbusCodec.cpp", "        return pduFuncCodeLen + numBytesLen + numItems * 2;", "        return pduFuncCodeLen + numBytesLen + (numItems & 0xFF) * 2;"),
 # --- reactor
 ("rx-epoll-pending", "P03", R+"Epoll.cpp", "            it->data.ptr = nullptr;", "            it->events &= ~EPOLLIN;"),
 ("rx-timer-handler", "P02", R+"Timer.cpp", "    long const nsec = interval * 1000L;", "    long const nsec = (int)(interval * 1000);"),
 ("rx-timer-nocreate-release", "P16", R+"Reactor.cpp", "        timerPool.release(uid);\n        throw;", "        throw;"),
 ("rx-link-send-partial", "P03", R+"Link.cpp", "    if (static_cast<std::size_t>(rc) != len)", "    if (static_cast<std::size_t>(rc) > len)"),
 ("rx-link-hup-data", "P03", R+"Link.cpp", "    if (events & (EPOLLERR | EPOLLHUP))", "    if (events & EPOLLERR)"),
 ("rx-link-fcntl-leak", "P16", R+"Link.cpp", "        ::close(fd);\n        fd = -1;\n        throw std::runtime_error(\"fcntl\");", "        fd = -1;\n        throw std::runtime_error(\"fcntl\");"),
 ("rx-acc-fcntl-leak", "P16", R+"Acceptor.cpp", "        ::close(fd);\n        throw std::runtime_error(\"fcntl\");", "        throw std::runtime_error(\"fcntl\");"),
 ("rx-acc-add-leak", "P16", R+"Acceptor.cpp", "        link.close();\n        throw", "        throw"),
 ("rx-listen-leak", "P16", R+"Acceptor.cpp", "        ::close(sfd);\n        sfd = -1;\n        throw std::runtime_error(\"bind\");", "        sfd = -1;\n        throw std::runtime_error(\"bind\");"),
 ("rx-listen-sfd", "P16", R+"Acceptor.cpp", "        ::close(sfd);\n        sfd = -1;\n        throw std::runtime_error(\"bind\");", "        ::close(sfd);\n        throw std::runtime_error(\"bind\");"),
 ("rx-msg-order", "P01", R+"MsgMemStorage.cpp", "    std::lock_guard<std::mutex> guard(mutex);\n\n    if (busyIds.empty())", "    if (busyIds.empty())"),
 ("rx-msg-size", "P01", R+"MsgMemStorage.cpp", "    std::memcpy(data, item.data, item.len);", "    std::memcpy(data, item.data, item.len > 2048 ? 2048 : item.len);"),
 ("rx-msg-copy-unlocked", "P01", R+"MsgMemStorage.cpp", "    std::lock_guard<std::mutex> guard(mutex);\n\n    if (freeIds.empty())\n    {\n        return false;\n    }\n    unsigned id = freeIds.front();\n    freeIds.pop();\n    busyIds.push(id);\n    Item", "    std::unique_lock<std::mutex> guard(mutex);\n\n    if (freeIds.empty())\n    {\n        return false;\n    }\n    unsigned id = freeIds.front();\n    freeIds.pop();\n    busyIds.push(id);\n    guard.unlock();\n    Item"),
 ("rx-nohandler-return", "P01", R+"Reactor.cpp", "            LM(GEN, LE, \"Can not find handler: msgId=%zu\", msg.getMsgId());", "            LM(GEN, LE, \"Can not find handler: msgId=%zu\", msg.getMsgId());\n            return;"),
 ("rx-acc-et", "P09", R+"Acceptor.cpp", "    if (-1 == epoll.add(*this, EPOLLIN))", "    if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))"),
 ("rx-link-eintr", "P03", R+"Link.cpp", "    if (-1 == rc && EAGAIN == errno)", "    if (-1 == rc && (EAGAIN == errno || ECONNRESET == errno))"),
 ("rx-link-mod", "P03", R+"Link.cpp", "        if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET))", "        if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET | EPOLLOUT))"),
 ("rx-timer-release-nostop", "P02", R+"Timer.cpp", "    stop();\n    close();\n    handler = {};", "    close();"),
 ("rx-stop-nojoin", "P15", R+"Reactor.cpp", "        thread->join();", "        (void)thread;"),
 ("rx-stop-nowake", "P15", R+"Reactor.cpp", "        event->send();\n    }\n    catch", "    }\n    catch"),
 ("rx-stopped-dispatch", "P15", R+"Reactor.cpp", "    if (stopped)\n    {\n        return;\n    }\n", ""),
 # --- controller
 ("ct-stop-noua", "P15", K+"ControllerComponent.cpp", "        opcUa->getState().onReceive(*opcUa, req);\n        opcUa.reset();", "        opcUa.reset();"),
 ("ct-stop-nosvc", "P15", K+"ua/UaController.cpp", "    reactor::MsgStore<MsgUaServiceReleaseReq> srvMsgStore;\n    Sender::sendMsg(srvMsgStore);\n", ""),
 ("ct-stop-notl", "P15", K+"ua/UaController.cpp", "    reactor::MsgStore<MsgUaTransportReleaseReq> tlMsgStore;\n    Sender::sendMsg(tlMsgStore);\n", ""),
 ("ct-init-order", "P15", "src/app/ua/transport/UaTransportComponent.cpp", "    uaTransport.reset();\n", ""),
 ("ct-modbus-release", "P15", M+"ModbusComponent.cpp", "    modbus.reset();\n", ""),

 # --- second batch
 ("x-timer-int", "P02", R+"Timer.cpp", "    long const nsec = interval * 1000L;", "    int const nsec = interval * 1000;"),
 ("x-timer-carry", "P02", R+"Timer.cpp", "now.tv_sec + (now.tv_nsec + nsec) / nano;", "now.tv_sec + nsec / nano;"),
 ("x-timer-realtime", "P02", [(R+"Timer.cpp", "::timerfd_create(CLOCK_MONOTONIC", "::timerfd_create(CLOCK_REALTIME"), (R+"Timer.cpp", "::clock_gettime(CLOCK_MONOTONIC", "::clock_gettime(CLOCK_REALTIME")]),
 ("x-timer-zero", "P02", R+"Timer.cpp", "    long const nsec = interval * 1000L;", "    if (interval <= 0) return;\n    long const nsec = interval * 1000L;"),
 ("x-timer-interval", "P02", R+"Timer.cpp", "    new_value.it_interval.tv_nsec = 0;\n    if (::timerfd", "    new_value.it_interval.tv_nsec = nsec < nano ? nsec : 0;\n    if (::timerfd"),
 ("x-timer-block", "P02", R+"Timer.cpp", "TFD_NONBLOCK", "0"),
 ("x-send-sigpipe", "P03", R+"Link.cpp", "MSG_NOSIGNAL", "0"),
 ("x-acc-block", "P09", R+"Acceptor.cpp", "    if (-1 == ::fcntl(fd, F_SETFL, O_NONBLOCK))", "    if (-1 == ::fcntl(fd, F_GETFL, 0))"),
 ("x-connect-block", "P07", R+"Link.cpp", "    if (-1 == ::fcntl(fd, F_SETFL, O_NONBLOCK))", "    if (-1 == ::fcntl(fd, F_GETFL, 0))"),
 ("x-link-lt", "P03", R+"Link.cpp", "epoll.mod(*this, EPOLLIN | EPOLLET)", "epoll.mod(*this, EPOLLIN | EPOLLET | EPOLLOUT)"),
 ("x-link-rcv-len", "P03", R+"Link.cpp", "    else if (0 == rc && 0 != len)", "    else if (0 == rc)"),
 ("x-link-port-swap", "P05", R+"Link.cpp", "htonl(ipv4addr(address));", "htonl(INADDR_LOOPBACK); (void)&ipv4addr;"),
 ("x-epoll-max", "P01", R+"Epoll.cpp", "    pendingEnd = &events[nfds];", "    pendingEnd = &events[nfds > 1 ? nfds - 1 : nfds];"),
 ("x-epoll-throw", "P04", R+"Epoll.cpp", "            LM(GEN, LE, \"Event handling failed: %s\", e.what());", "            LM(GEN, LE, \"Event handling failed: %s\", e.what());\n            break;"),
 ("x-msg-throw-break", "P04", R+"Reactor.cpp", "LM(GEN, LE, \"Handler failed: msgId=%zu, %s\", msg.getMsgId(), e.what());", "LM(GEN, LE, \"Handler failed: msgId=%zu, %s\", msg.getMsgId(), e.what());\n                return;"),
 ("x-msg-align", "P01", R+"MsgMemStorage.cpp", "(sizeof(Item) + chunkSize_ + 15) & ~(std::size_t)0x0F", "(sizeof(Item) + chunkSize_) & ~(std::size_t)0x3F"),
 ("x-msg-chunkoff", "P01", R+"MsgMemStorage.cpp", "    if (len > chunkSize)", "    if (len >= chunkSize)"),
 ("x-msg-64", "P01", R+"Reactor.cpp", "(maxMsgSize, 64)", "(maxMsgSize, 63)"),
 ("x-stop-onlyfirst", "P15", R+"ReactorManager.cpp", "        reactor->stop();", "        reactor->stop();\n        break;"),
 ("x-mgr-dup", "P15", R+"ReactorManager.cpp", "    auto it = components.find(msg.getCompId());", "    if (!components[msg.getCompId()]) return;\n    auto it = components.find(msg.getCompId());"),
 ("x-thread-nojoin", "P15", R+"Thread.cpp", "    int result = pthread_join(tid, nullptr);", "    int result = pthread_detach(tid);"),
 ("x-fsm-order", "P11", "src/app/common/utils/FsmBase.hpp", "        state->onExit(getEntity());\n        state = newState;\n        state->onEnter", "        state = newState;\n        state->onExit(getEntity());\n        state->onEnter"),
 ("x-queue-cap", "P01", "src/app/common/utils/Queue.hpp", "        begin = (begin + 1) % capacity;", "        begin = (begin + 1) % (capacity - 1);"),
 ("x-acc-backlog", "P09", R+"Acceptor.cpp", "    int const LISTEN_BACKLOG = 10;", "    int const LISTEN_BACKLOG = 0;"),
 ("x-acc-noreuse", "P15", R+"Acceptor.cpp", "SO_REUSEADDR", "SO_KEEPALIVE"),
 # modbus client
 ("y-storage-silent", "P05", M+"client/ModbusClient.cpp", "        LM(MODBUS, LE, \"Client-%u, can not store transaction\", adu.clientId);\n        provideRspError(adu);", "        LM(MODBUS, LE, \"Client-%u, can not store transaction\", adu.clientId);"),
 ("y-storage-cap", "P05", M+"client/ModbusAduStorage.cpp", "    if (freeIds.empty())", "    if (freeIds.empty() && adu.numBytes)"),
 ("y-storage-dataptr", "P06", M+"client/ModbusAduStorage.cpp", "        adus[id].data = nullptr;", "        adus[id].data = &buffer[maxAduLen * id];"),
 ("y-storage-copylate", "P06", M+"client/ModbusAduStorage.cpp", "        std::memcpy(&buffer[maxAduLen * id], adu.data, adu.numBytes);", "        std::memcpy(&buffer[maxAduLen * id], adu.data, adu.numBytes & 0x7f);"),
 ("y-connected-data-done", "P05", M+"client/ModbusClientConnected.cpp", "        fsm.getEntity().provideRspError();\n        fsm.getEntity().close();\n        fsm.transit<ModbusClientBackoff>();\n    }\n    break;\n    default:", "        fsm.getEntity().provideRspError();\n        fsm.transit<ModbusClientBackoff>();\n    }\n    break;\n    default:"),
 ("y-connected-err-none", "P07", M+"client/ModbusClientConnected.cpp", "void ModbusClientConnected::onError(ModbusClientFsm& fsm)\n{\n    fsm.getEntity().provideRspError();\n    fsm.getEntity().close();\n    fsm.transit<ModbusClientBackoff>();", "void ModbusClientConnected::onError(ModbusClientFsm& fsm)\n{\n    fsm.getEntity().provideRspError();\n    fsm.getEntity().close();"),
 ("y-send-err-keep", "P05", M+"client/ModbusClientSend.cpp", "    case Status::error:\n    {\n        fsm.getEntity().provideRspError();\n        fsm.getEntity().close();\n        fsm.transit<ModbusClientBackoff>();\n    }\n    break;\n    case Status::noerror:", "    case Status::error:\n    {\n        fsm.getEntity().close();\n        fsm.transit<ModbusClientBackoff>();\n    }\n    break;\n    case Status::noerror:"),
 ("y-send-onerror-keep", "P05", M+"client/ModbusClientSend.cpp", "void ModbusClientSend::onError(ModbusClientFsm& fsm)\n{\n    fsm.getEntity().provideRspError();", "void ModbusClientSend::onError(ModbusClientFsm& fsm)\n{"),
 ("y-send-data-keep", "P05", M+"client/ModbusClientSend.cpp", "        fsm.getEntity().provideRspError();\n        fsm.getEntity().close();\n        fsm.transit<ModbusClientBackoff>();\n    }\n    break;\n    default:", "        fsm.getEntity().close();\n        fsm.transit<ModbusClientBackoff>();\n    }\n    break;\n    default:"),
 ("y-rcv-onerror-keep", "P05", M+"client/ModbusClientReceive.cpp", "void ModbusClientReceive::onError(ModbusClientFsm& fsm)\n{\n    fsm.getEntity().provideRspError();", "void ModbusClientReceive::onError(ModbusClientFsm& fsm)\n{\n    fsm.getEntity().provideRspTimeout();"),
 ("y-rcv-onexit-timer", "P05", M+"client/ModbusClientReceive.cpp", "    fsm.getEntity().stopTimer();\n", ""),
 ("y-codecerr-stop", "P05", M+"client/ModbusClientSend.cpp", "        fsm.getEntity().startTimer(ModbusClient::sendDelay);\n    }", "        fsm.transit<ModbusClientConnected>();\n    }"),
 ("y-connecttimer-close", "P07", M+"client/ModbusClientConnect.cpp", "    fsm.getEntity().close();\n    fsm.transit<ModbusClientBackoff>();", "    fsm.transit<ModbusClientBackoff>();"),
 ("y-timeout-front", "P06", M+"client/ModbusClientReceive.cpp", "    fsm.getEntity().provideRspTimeout();\n    fsm.transit<ModbusClientSend>();", "    fsm.getEntity().provideRspTimeout();\n    fsm.getEntity().startTimer(ModbusClient::receiveTimeout);"),
 ("y-adu-partial-reset", "P06", M+"client/ModbusClient.cpp", "        if (not codec.isAduReceived())\n        {\n            continue;\n        }\n\n        if (Status::done", "        if (not codec.isAduReceived())\n        {\n            if (not rspExpected) pduBuf.reset();\n            continue;\n        }\n\n        if (Status::done"),
 ("y-item-next", "P05", M+"Modbus.cpp", "            Sender::sendMsg(msgStore);\n            continue;", "            Sender::sendMsg(msgStore);\n            break;"),
 ("y-cfg-status", "P05", M+"Modbus.cpp", "        rsp.items[i].status = configure(req.items[i]) ? MsgStatus::success : MsgStatus::error;", "        rsp.items[i].status = configure(req.items[i]) ? MsgStatus::success : rsp.items[0].status;"),
 # modbus server
 ("y-sess-preaction", "P08", M+"server/session/ModbusSessionConnected.cpp", "    fsm.getEntity().receivePreaction();\n", ""),
 ("y-sess-stored-tid", "P08", M+"server/session/ModbusSession.cpp", "        bool const decoded = codec.decode(storedAdu);\n        pduBuf.reset();", "        bool const decoded = codec.decode(storedAdu);"),
 ("y-sess-uid-off", "P08", M+"server/ModbusServer.cpp", "    if (rsp.sessionId >= maxNumSession)", "    if (rsp.sessionId > maxNumSession)"),
 ("y-srv-numitems", "P08", M+"server/session/ModbusSession.cpp", "    aduRsp.numItems = storedAdu.numItems;", "    aduRsp.numItems = rsp.numBytes / 2;"),
 ("y-srv-start", "P08", M+"server/session/ModbusSession.cpp", "    aduRsp.startItem = storedAdu.startItem;", "    aduRsp.startItem = static_cast<std::uint8_t>(storedAdu.startItem);"),
 # UA
 ("z-hello-preaction", "P10", [(U+"UaTcpConnectionReceiveHello.cpp", "    fsm.receivePreaction();\n", "", 1)]),
 ("z-max-size", "P14", U+"UaTcpConnection.cpp", "expected > opcUaMaxReceivedMessageSize", "expected > opcUaReceiveBufferSize"),
 ("z-token-mask", "P12", S+"session/UaSession.hpp", "return token == authenticationToken", "return (token & 0xffff) == (authenticationToken & 0xffff)"),
 ("z-expire-created", "P13", S+"session/UaSession.cpp", "    if (expiration && *expiration < getMonotonicMsec())", "    if (expiration && secureChannelId && *expiration < getMonotonicMsec())"),
 ("z-expire-activated", "P13", S+"session/UaSession.cpp", "    if (expiration && *expiration < getMonotonicMsec())", "    if (expiration && not secureChannelId && *expiration < getMonotonicMsec())"),
 ("z-seq-64", "P11", C+"UaServerSecureChannel.cpp", "    if (rxSeqHdr.sequenceNumber != (storedRxSequenceNumber + 1))", "    if (rxSeqHdr.sequenceNumber != (storedRxSequenceNumber + 1ull))", 2),
 ("z-opn-handle", "P10", C+"UaServerSecureChannel.cpp", "    rsp.msg.responseHdr.requestHandle = req.msg.requestHdr.requestHandle;\n    rsp.msg.serverProtocolVer", "    rsp.msg.serverProtocolVer"),
 ("z-opn-lifetime", "P11", C+"UaServerSecureChannel.cpp", "    rsp.msg.securityToken.revisedLifetime = req.msg.requestLifetime;", "    rsp.msg.securityToken.revisedLifetime = 0;"),
 ("z-svc-catch", "P14", S+"UaService.cpp", "    if (not std::holds_alternative<UInt32>(eNodeId.nodeId.value))", "    if (false)"),
 ("z-svc-at", "P14", S+"UaService.cpp", "    if (it == services.end())", "    if (it == services.end() && serviceId == 0)"),
 ("z-act-string", "P14", S+"session/UaSessionService.cpp", "    if (std::holds_alternative<UInt32>(nodeId.value))", "    if (not std::holds_alternative<String>(nodeId.value))", 1),
 ("z-getep-noclient", "P12", "src/app/ua/service/discovery/UaGetEndpoints.cpp", "    rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;\n", ""),
 ("z-pool-at", "P14", B+"UaEntityPool.hpp", "        return *(pool.at(uid - 1));", "        return *(pool[uid - 1]);"),
 # controller
 ("w-stop-setup", "P15", K+"modbus/ModbusTestSetup.cpp", "void ModbusTestSetup::onStop(ModbusTestFsm& fsm)\n{\n    fsm.transit<ModbusTestInit>();", "void ModbusTestSetup::onStop(ModbusTestFsm&)\n{"),
 ("w-stop-run", "P15", K+"modbus/ModbusTestRun.cpp", "void ModbusTestRun::onStop(ModbusTestFsm& fsm)\n{\n    fsm.transit<ModbusTestInit>();", "void ModbusTestRun::onStop(ModbusTestFsm&)\n{"),
 ("w-stop-conf", "P15", K+"modbus/ModbusTestConfigure.cpp", "void ModbusTestConfigure::onStop(ModbusTestFsm& fsm)\n{\n    fsm.transit<ModbusTestInit>();", "void ModbusTestConfigure::onStop(ModbusTestFsm&)\n{"),
 ("w-stop-init", "P15", K+"modbus/ModbusTestInit.cpp", "void ModbusTestInit::onStop(ModbusTestFsm& fsm)\n{\n    fsm.getEntity().sendModbusReleaseReq();", "void ModbusTestInit::onStop(ModbusTestFsm&)\n{"),
 ("w-keep-modbus", "P15", K+"ControllerComponent.cpp", "        modbus.reset();\n", ""),
 ("w-keep-ua", "P15", K+"ControllerComponent.cpp", "        opcUa.reset();\n", ""),
 ("w-setup-timer", "P15", K+"modbus/ModbusTestSetup.cpp", "    fsm.getEntity().stopTimer();\n", ""),
 ("w-ua-port", "P15", K+"ua/UaController.cpp", "    msg.addr.data[3] = 0x1;\n", "    msg.addr.data[3] = 0x2;\n"),
]

K = "src/app/common/ua/protocols/connection/"
MUTANTS += [
 ("k-cl-notimer", "P17", K+"ClientConnectionConnecting.cpp", "    fsm.startTimer(ClientConnection::connectTimeout);\n", ""),
 ("k-ack-notimer", "P17", K+"ClientConnectionReceiveAck.cpp", "    fsm.startTimer(ClientConnection::receiveTimeout);\n", ""),
 ("k-ack-longtimer", "P17", K+"ClientConnectionReceiveAck.cpp", "ClientConnection::receiveTimeout", "ClientConnection::establishTimeout"),
 ("k-hel-stoptimer", "P17", K+"ServerConnectionReceiveHello.cpp", "    case OpcUaConnection::Result::noerror:\n    break;", "    case OpcUaConnection::Result::noerror:\n        fsm.startTimer(ServerConnection::receiveTimeout);\n    break;"),
 ("k-est-notimer", "P17", K+"ServerConnectionConnected.cpp", "    fsm.startTimer(ServerConnection::establishTimeout);\n", ""),
 ("k-data-nopre", "P17", K+"ServerConnectionConnected.cpp", "        fsm.notifyDataReceived();\n        fsm.receivePreaction();", "        fsm.notifyDataReceived();"),
 ("k-data-pre-first", "P17", K+"ClientConnectionConnected.cpp", "        fsm.notifyDataReceived();\n        fsm.receivePreaction();", "        fsm.receivePreaction();\n        fsm.notifyDataReceived();"),
 ("k-enter-nopre", "P17", K+"ClientConnectionConnected.cpp", "    fsm.receivePreaction();\n    fsm.startTimer", "    fsm.startTimer"),
 ("k-ack-nopre", "P17", K+"ClientConnectionReceiveAck.cpp", "    fsm.receivePreaction();\n", ""),
 ("k-hel-nopre", "P17", K+"ServerConnectionReceiveHello.cpp", "    fsm.receivePreaction();\n", ""),
 ("k-size-lt", "P17", K+"OpcUaConnection.cpp", "    if (rx.size() < getMsgSizeFromHdr(rx.begin()))\n    {\n        return Result::noerror;\n    }\n", ""),
 ("k-hdr-lt", "P17", K+"OpcUaConnection.cpp", "    if (rx.size() < messageHeaderSize)\n    {\n        return Result::noerror;\n    }\n", ""),
 ("k-hdr-4", "P17", K+"OpcUaConnection.cpp", "rx.size() < messageHeaderSize)", "rx.size() < 4)"),
 ("k-rx-na", "P17", K+"OpcUaConnection.cpp", "    case reactor::LinkResult::na:\n        return Result::noerror;", "    case reactor::LinkResult::na:\n        return Result::error;"),
 ("k-rx-closed", "P17", K+"OpcUaConnection.cpp", "    case reactor::LinkResult::closed:\n    case reactor::LinkResult::error:\n        return Result::error;", "    case reactor::LinkResult::closed:\n        return Result::noerror;\n    case reactor::LinkResult::error:\n        return Result::error;"),
 ("k-rx-limit", "P17", K+"OpcUaConnection.cpp", "rx.size() > 1024", "rx.size() > 512"),
 ("k-rx-begin", "P17", K+"OpcUaConnection.cpp", "link->receive(rx.end(), rx.capacity())", "link->receive(rx.begin(), rx.capacity())"),
 ("k-ack-type", "P17", K+"ClientConnection.cpp", "    if (not isMsgAck(getRxBuffer().begin()))", "    if (false)"),
 ("k-hel-type", "P17", K+"ServerConnection.cpp", "    if (not isMsgHello(getRxBuffer().begin()))", "    if (false)"),
 ("k-hel-size", "P17", K+"ClientConnection.cpp", "    setPayloadSizeToHdr(tx.begin(), tx.size());", "    setPayloadSizeToHdr(tx.begin(), tx.size() - 8);"),
 ("k-senderr", "P17", K+"OpcUaConnection.cpp", "        LM(UA, LI, \"send return: %d\", rc);\n        return Result::error;", "        LM(UA, LI, \"send return: %d\", rc);\n        return Result::done;"),
 ("k-notify-twice", "P17", K+"ClientConnectionConnecting.cpp", "        fsm.closeLink();\n        fsm.transit<ClientConnectionInit>();\n        fsm.notifyError();", "        fsm.closeLink();\n        fsm.transit<ClientConnectionInit>();\n        fsm.notifyError();\n        fsm.notifyError();", 1),
 ("k-close-notify", "P17", K+"ServerConnectionConnected.cpp", "::onClose(ServerConnection& fsm)\n{\n    fsm.closeLink();\n    fsm.transit<ServerConnectionInit>();", "::onClose(ServerConnection& fsm)\n{\n    fsm.closeLink();\n    fsm.transit<ServerConnectionInit>();\n    fsm.notifyClosed();"),
 ("k-release-timer", "P17", K+"OpcUaConnection.cpp", "    link.reset();\n    timer.reset();", "    link.reset();"),
 ("k-release-link", "P17", K+"OpcUaConnection.cpp", "    link.reset();\n    timer.reset();", "    timer.reset();"),
 ("k-est-closed-err", "P17", K+"ClientConnectionConnected.cpp", "    fsm.notifyClosed();", "    fsm.notifyError();"),
 ("k-timer-noclose-notify", "P17", K+"ServerConnectionConnected.cpp", "    fsm.notifyClosed();", ""),
 ("k-recverr-nonotify", "P17", K+"ClientConnectionConnected.cpp", "        fsm.closeLink();\n        fsm.transit<ClientConnectionInit>();\n        fsm.notifyError();", "        fsm.closeLink();\n        fsm.transit<ClientConnectionInit>();"),
 ("k-connerr-nonotify", "P17", K+"ServerConnectionConnecting.cpp", "    LM(UA, LW, \"onError\");\n    fsm.transit<ServerConnectionInit>();\n    fsm.notifyError();", "    LM(UA, LW, \"onError\");\n    fsm.transit<ServerConnectionInit>();"),
 ("k-conn-early", "P17", K+"ServerConnectionReceiveHello.cpp", "        switch (fsm.sendAcknowledge())", "        fsm.notifyConnected();\n        switch (fsm.sendAcknowledge())"),
 ("k-noack", "P17", K+"ServerConnection.cpp", "    LM(UA, LD, \"ServerConnection-0, send AcknowledgeMessage, size(%u)\", tx.size());\n\n    return OpcUaConnection::send(tx);", "    return OpcUaConnection::Result::done;"),
 ("k-err-ignored", "P17", K+"ServerConnectionConnected.cpp", "::onError(ServerConnection& fsm)\n{", "::onError(ServerConnection& fsm)\n{\n    return;"),
 ("k-static-rx", "P17", K+"OpcUaConnection.hpp", "    OpcUaSduBuffer rx;", "    static inline OpcUaSduBuffer rx;"),
]

G = "src/app/common/logger/"
MUTANTS += [
 ("l-nolock", "P18", G+"Logger.cpp", "    std::lock_guard<std::mutex> guard(mutex);\n", ""),
 ("l-latelock", "P18", [(G+"Logger.cpp", "    std::lock_guard<std::mutex> guard(mutex);\n", ""), (G+"Logger.cpp", "    char const* filePart =", "    std::lock_guard<std::mutex> guard(mutex);\n    char const* filePart =")]),
 ("l-split", "P18", [(G+"Logger.cpp", "    std::lock_guard<std::mutex> guard(mutex);\n", ""), (G+"Logger.cpp", " %d: %s\\n\", strTimeInfo", " %d: \", strTimeInfo"), (G+"Logger.cpp", "fileToLog, line, msg);", "fileToLog, line);\n    printf(\"%s\\n\", msg);")]),
 ("l-static-time", "P18", G+"Logger.cpp", "    gettimeofday(&tv, NULL);", "    static time_t last = 0;\n    gettimeofday(&tv, NULL);\n    if (last && tv.tv_sec - last < 2) tv.tv_sec = last;\n    last = tv.tv_sec;"),
 ("l-static-buf", "P18", G+"Logger.hpp", "        char temporary___[1024];", "        static char temporary___[1024];"),
 ("l-shortbuf", "P18", G+"Logger.hpp", "        char temporary___[1024];", "        char temporary___[512];"),
 ("l-gt", "P18", G+"Logger.hpp", "LM_LEVEL >= app", "LM_LEVEL > app"),
 ("l-fmt", "P18", [(G+"Logger.cpp", " %d: %s\\n\", strTimeInfo", " %d: \", strTimeInfo"), (G+"Logger.cpp", "fileToLog, line, msg);", "fileToLog, line);\n    printf(msg);\n    printf(\"\\n\");")]),
 ("l-ms", "P18", G+"Logger.cpp", "tv.tv_usec/1000,", "tv.tv_usec/1024,"),
]

R = "src/app/common/reactor/"
MC = "src/app/modbus/client/"
MS = "src/app/modbus/server/"
UT = "src/app/ua/transport/server/"
UC = "src/app/ua/securechannel/"
US = "src/app/ua/service/"
MUTANTS += [
 # a wake-up that is skipped when one is believed to be under way
 ("n-wake-opt", "P01", [(R+"Reactor.cpp", "    event->send();\n}\n\nvoid Reactor::start", "    if (not wakeup.exchange(true))\n    {\n        event->send();\n    }\n}\n\nvoid Reactor::start"),
   (R+"Reactor.cpp", "    for (uint64_t ev = 0; ev < val; ++ev)\n    {\n        alignas(64) char localBuf[maxMsgSize];\n        if (not msgMemStorage->pop(&localBuf[0]))\n        {\n            LM(GEN, LE, \"Mem storage is empty\");\n            return;\n        }", "    for (uint64_t ev = 0; ev < 64 + val; ++ev)\n    {\n        alignas(64) char localBuf[maxMsgSize];\n        if (not msgMemStorage->pop(&localBuf[0]))\n        {\n            wakeup = false;\n            return;\n        }"),
   (R+"Reactor.cpp", "Reactor::Reactor(Init", "static std::atomic<bool> wakeup{false};\n\nReactor::Reactor(Init"), (R+"Reactor.cpp", "#include <cstring>", "#include <cstring>\n#include <atomic>")]),
 ("n-wake-empty", "P01", [(R+"Reactor.cpp", "    for (uint64_t ev = 0; ev < val; ++ev)", "    for (uint64_t ev = 0; ev < std::min<uint64_t>(val, 16); ++ev)"), (R+"Reactor.cpp", "#include <cstring>", "#include <cstring>\n#include <algorithm>")]),
 ("n-ev-sema", "P01", R+"Event.cpp", "::eventfd(0, 0)", "::eventfd(0, EFD_SEMAPHORE)"),
 ("n-static-localbuf", "P01", R+"Reactor.cpp", "alignas(64) char localBuf", "alignas(64) static char localBuf"),
 ("n-pop-unlocked-copy", "P01", R+"MsgMemStorage.cpp", "    std::lock_guard<std::mutex> guard(mutex);\n\n    if (busyIds.empty())\n    {\n        return false;\n    }\n    unsigned id = busyIds.front();\n    busyIds.pop();\n    freeIds.push(id);\n", "    unsigned id;\n    {\n    std::lock_guard<std::mutex> guard(mutex);\n\n    if (busyIds.empty())\n    {\n        return false;\n    }\n    id = busyIds.front();\n    busyIds.pop();\n    freeIds.push(id);\n    }\n"),
 ("n-len-u8", "P01", R+"MsgMemStorage.cpp", "    std::memcpy(data, item.data, item.len);", "    std::memcpy(data, item.data, item.len > 4080 ? 4080 : item.len);"),
 # close retried after EINTR: by then the number may belong to someone else
 ("n-close-eintr-link", "P16", R+"Link.cpp", "    if (-1 == ::close(fd))\n    {", "    int rc;\n    do\n    {\n        rc = ::close(fd);\n    } while (-1 == rc && EINTR == errno);\n    if (-1 == rc)\n    {"),
 ("n-close-eintr-keep", "P16", R+"Link.cpp", "        LM(GEN, LE, \"close errno: %d\", errno);\n    }\n", "        LM(GEN, LE, \"close errno: %d\", errno);\n        return;\n    }\n"),
 ("n-close-eintr-timer", "P16", R+"Timer.cpp", "        LM(GEN, LE, \"close errno: %d\", errno);\n    }\n", "        throw std::runtime_error(\"close\");\n    }\n"),
 # sizes
 ("n-hel-512", "P10", UT+"UaTcpConnection.cpp", "    if (not isMsgHello(rxBuffer.begin()))", "    if (not isMsgHello(rxBuffer.begin()) || rxBuffer.size() > 2048)"),
 ("n-rx-u16", "P10", UT+"UaTcpConnection.cpp", "        std::uint32_t const expected =", "        std::uint16_t const expected ="),
 ("n-rx-max-ge", "P10", UT+"UaTcpConnection.cpp", "expected > opcUaMaxReceivedMessageSize", "expected >= opcUaMaxReceivedMessageSize"),
 ("n-rx-hdr-le", "P10", UT+"UaTcpConnection.cpp", "expected < messageHeaderSize ||", "expected <= messageHeaderSize ||"),
 ("n-seq-tx16", "P11", UC+"channel/UaServerSecureChannel.cpp", "seqHdr.sequenceNumber = sequenceNumberTx++;\n    codec", "seqHdr.sequenceNumber = static_cast<std::uint16_t>(sequenceNumberTx++);\n    codec"),
 ("n-seq-rx16", "P11", UC+"channel/UaServerSecureChannel.cpp", "    storedRxSequenceNumber = rxSeqHdr.sequenceNumber;\n\n    reactor", "    storedRxSequenceNumber = static_cast<std::uint16_t>(rxSeqHdr.sequenceNumber);\n\n    reactor"),
 ("n-reqid16", "P13", UC+"channel/UaServerSecureChannel.cpp", "    msgRsp.hdr.requestId = rxSeqHdr.requestId;", "    msgRsp.hdr.requestId = static_cast<std::uint16_t>(rxSeqHdr.requestId);"),
 ("n-handle-i32", "P13", US+"session/UaSession.cpp", "rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;", "rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle & 0x7FFFFFFF;", 3),
 ("n-expiry-32", "P12", US+"session/UaSession.cpp", "    return now.tv_sec * 1000L + now.tv_nsec / 1000000L;", "    return static_cast<std::uint32_t>(now.tv_sec * 1000L + now.tv_nsec / 1000000L);"),
 ("n-expiry-wall", "P13", US+"session/UaSession.cpp", "::clock_gettime(CLOCK_MONOTONIC, &now)", "::clock_gettime(CLOCK_REALTIME, &now)"),
 ("n-expiry-le0", "P13", US+"session/UaSession.cpp", "*expiration < getMonotonicMsec()", "*expiration < getMonotonicMsec() + 10000"),
 ("n-noprolong-read", "P13", US+"session/UaSession.cpp", "    prolong();\n    handler();", "    handler();"),
 ("n-noprolong-act", "P13", US+"session/UaSession.cpp", "    prolong();\n\n    UaActivate", "    UaActivate"),
 ("n-release-expiry", "P13", US+"session/UaSession.cpp", "    expiration = {};\n", ""),
 ("n-token-same", "P12", US+"session/UaSession.cpp", "    authenticationToken += (1u + ::rand() % 0x7FFFFF) * 0x100u;", "    if (secureChannelId) authenticationToken += (1u + ::rand() % 0x7FFFFF) * 0x100u;"),
 ("n-replaced-any", "P11", UC+"channel/UaServerSecureChannel.cpp", "toConnectionEntityId(*connectionId) == toConnectionEntityId(val)", "*connectionId == val"),
 ("n-rel-sess", "P12", UC+"channel/UaServerSecureChannel.cpp", "    sessionId = {};\n", ""),
 ("n-tok-and", "P11", UC+"channel/UaServerSecureChannel.cpp", "rxSecHdr.tokenId != storedTokenId", "(rxSecHdr.tokenId ^ storedTokenId) & 0x00FFFFFF", 2),
 # modbus client
 ("n-tid-cmp8", "P06", MC+"ModbusClient.cpp", "    if (static_cast<std::uint16_t>(aduReq.transactId) != aduRsp.transactId)", "    if (static_cast<std::uint8_t>(aduReq.transactId) != static_cast<std::uint8_t>(aduRsp.transactId))"),
 ("n-tid-rsp16", "P05", MC+"ModbusClient.cpp", "    rsp.transactId = adu.transactId;\n    rsp.error = ModbusError::noerror;", "    rsp.transactId = static_cast<std::uint16_t>(adu.transactId);\n    rsp.error = ModbusError::noerror;"),
 ("n-static-storage", "P05", MC+"ModbusClient.hpp", "    ModbusAduStorage aduStorage;", "    static inline ModbusAduStorage aduStorage;"),
 ("n-match-len", "P06", MC+"ModbusClient.cpp", "        return rsp.numBytes == req.numItems * 2;", "        return rsp.numBytes >= req.numItems * 2;"),
 ("n-match-static", "P06", MC+"ModbusClient.cpp", "        return rsp.startItem == req.startItem && rsp.numItems == req.numItems;", "        return rsp.startItem == req.startItem || rsp.numItems == req.numItems;"),
 # modbus server
 ("n-sess-noerr-release", "P09", MS+"ModbusServer.cpp", "        session.releaseSession();\n        return;\n    }\n    session.start();", "        return;\n    }\n    session.start();"),
 ("n-sess-range", "P09", MS+"ModbusServer.cpp", "rsp.sessionId >= maxNumSession", "rsp.sessionId > maxNumSession"),
 ("n-sess-tid-check", "P08", MS+"session/ModbusSession.cpp", "    if (rsp.transactId != storedAdu.transactId)", "    if (static_cast<std::uint8_t>(rsp.transactId) != static_cast<std::uint8_t>(storedAdu.transactId))"),
 # link / timer
 ("n-timer-int", "P02", R+"Timer.cpp", "    long const nsec = interval * 1000L;", "    long const nsec = static_cast<unsigned>(interval) * 1000L;"),
 ("n-timer-int32ns", "P02", R+"Timer.cpp", "    long const nsec = interval * 1000L;", "    unsigned const nsec = interval * 1000L;"),
 ("n-timer-readfirst", "P02", R+"Timer.cpp", "    stop();\n    close();\n    handler = {};", "    stop();\n    handler = {};"),
 ("n-link-hup-data", "P03", R+"Link.cpp", "    if (events & (EPOLLERR | EPOLLHUP))", "    if (events & EPOLLERR)"),
 ("n-link-out-in", "P03", R+"Link.cpp", "    else if (events & EPOLLOUT)\n    {", "    else if ((events & EPOLLOUT) && not (events & EPOLLIN))\n    {"),
 ("n-link-recv-cap", "P03", R+"Link.cpp", "    int rc = ::read(fd, data, len);", "    if (len > 4096) len = 4096;\n    int rc = ::read(fd, data, len);"),
 ("n-link-eintr", "P03", R+"Link.cpp", "    if (-1 == rc && EAGAIN == errno)", "    if (-1 == rc && (EAGAIN == errno || EINTR == errno || ECONNRESET == errno))"),
 ("n-epoll-pending", "P02", R+"Epoll.cpp", "            it->data.ptr = nullptr;\n", "            it->data.ptr = nullptr;\n            break;\n"),
 ("n-epoll-maxone", "P04", R+"Epoll.cpp", "        catch (std::exception const& e)\n        {\n            LM(GEN, LE, \"Event handling failed: %s\", e.what());\n        }", "        catch (std::runtime_error const& e)\n        {\n            LM(GEN, LE, \"Event handling failed: %s\", e.what());\n        }"),
 ("n-epoll-break", "P04", R+"Epoll.cpp", "            LM(GEN, LE, \"Event handling failed: %s\", e.what());", "            LM(GEN, LE, \"Event handling failed: %s\", e.what());\n            break;"),
 ("n-handler-break", "P04", R+"Reactor.cpp", "msg.getMsgId(), e.what());", "msg.getMsgId(), e.what());\n                break;"),
 ("n-handler-drop", "P04", R+"Reactor.cpp", "msg.getMsgId(), e.what());", "msg.getMsgId(), e.what());\n                handler = {};"),
 ("n-nohandler-ret", "P04", R+"Reactor.cpp", "            LM(GEN, LE, \"Can not find handler: msgId=%zu\", msg.getMsgId());", "            LM(GEN, LE, \"Can not find handler: msgId=%zu\", msg.getMsgId());\n            return;"),
]
MUTANTS += [
 ("n-timer-carry", "P02", R+"Timer.cpp", "    new_value.it_value.tv_sec = now.tv_sec + (now.tv_nsec + nsec) / nano;\n    new_value.it_value.tv_nsec = (now.tv_nsec + nsec) % nano;", "    new_value.it_value.tv_sec = now.tv_sec + nsec / nano;\n    new_value.it_value.tv_nsec = now.tv_nsec + nsec % nano;\n    if (new_value.it_value.tv_nsec > nano)\n    {\n        new_value.it_value.tv_sec += 1;\n        new_value.it_value.tv_nsec -= nano;\n    }"),
]
