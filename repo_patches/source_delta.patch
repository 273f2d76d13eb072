From c206589c4fe774e5bcc5ea0472c25c3a08e93238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:02 +0000
Subject: [PATCH 01/27] fix: close a broker connection when a request on it
 fails, authenticate without dead lock

---
 broker.go   | 95 +++++++++++++++++++++++++++++++++--------------------
 response.go | 12 ++++---
 2 files changed, 67 insertions(+), 40 deletions(-)

diff --git a/broker.go b/broker.go
index 4f44682..19460c4 100644
--- a/broker.go
+++ b/broker.go
@@ -11,7 +11,6 @@ import (
 	"net"
 	"os"
 	"sync"
-	"syscall"
 	"time"
 )
 
@@ -70,16 +69,24 @@ func (broker *Broker) createConn() error {
 	if conn, err := newConn(broker.GetAddress(), broker.config); err != nil {
 		return err
 	} else {
+		broker.closeLock.Lock()
 		broker.conn = conn
+		broker.closeLock.Unlock()
 		return nil
 	}
 }
 
 // create a new connection to the broker, and then do the sasl authenticate if needed
-func (broker *Broker) createConnAndAuth() error {
+func (broker *Broker) createConnAndAuth() (err error) {
 	if err := broker.createConn(); err != nil {
 		return err
 	}
+	// a connection that is not initialized completely must not be used
+	defer func() {
+		if err != nil {
+			broker.Close()
+		}
+	}()
 
 	clientID := "healer-init"
 	apiVersionsResponse, err := broker.requestAPIVersions(clientID)
@@ -164,24 +171,18 @@ func (broker *Broker) sendSaslAuthenticate() error {
 	)
 
 	saslHandShakeRequest := NewSaslHandShakeRequest(clientID, mechanism)
-	resp, err := broker.RequestAndGet(saslHandShakeRequest)
-	if err != nil {
+	// not use RequestAndGet to avoid dead lock
+	if _, err := broker.requestAndGet(saslHandShakeRequest); err != nil {
 		return err
 	}
-	if resp.Error() != nil {
-		return resp.Error()
-	}
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
-	resp, err = broker.RequestAndGet(saslAuthenticateRequest)
-	if err != nil {
-		return err
+	if saslAuthenticateRequest.RequestHeader == nil {
+		return fmt.Errorf("sasl mechanism %s is not supported", mechanism)
 	}
-	if resp.Error() != nil {
-		return resp.Error()
-	}
-	return nil
+	_, err := broker.requestAndGet(saslAuthenticateRequest)
+	return err
 }
 
 // GetAddress returns the broker address
@@ -206,7 +207,7 @@ func (broker *Broker) Close() {
 	}
 }
 func (broker *Broker) ensureOpen() (err error) {
-	if broker.conn != nil {
+	if _, err := broker.getConn(); err == nil {
 		return nil
 	}
 	return broker.createConnAndAuth()
@@ -244,32 +245,52 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
-	defer func() {
-		if os.IsTimeout(err) || errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) {
-			broker.Close()
-		}
-	}()
+	return broker.requestAndGet(r)
+}
 
+// requestAndGet does the same as RequestAndGet, but the caller holds the lock and has opened the connection.
+// the connection is closed if the response is not got completely,
+// or the next request on it would read (the rest of) this response.
+func (broker *Broker) requestAndGet(r Request) (Response, error) {
 	rp, err := broker.Request(r)
 	if err != nil {
+		broker.Close()
 		return nil, err
 	}
 
-	resp, err = rp.ReadAndParse()
+	resp, err := rp.ReadAndParse()
 	if err != nil {
+		broker.Close()
 		return nil, err
 	}
 	return resp, resp.Error()
 }
 
+func (broker *Broker) getConn() (net.Conn, error) {
+	broker.closeLock.Lock()
+	defer broker.closeLock.Unlock()
+
+	if broker.conn == nil {
+		return nil, net.ErrClosed
+	}
+	return broker.conn, nil
+}
+
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return defaultReadParser{}, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if _, err := io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+	if timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+	}
+	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
 
@@ -287,31 +308,33 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 		}
 	}()
 
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return nil, responseLength, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	io.Copy(broker.conn, bytes.NewBuffer(payload))
-
-	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
-		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+		conn.SetDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	n, err := broker.conn.Read(responseLengthBuf)
-	if err != nil {
+	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return nil, responseLength, err
 	}
-	if n != 4 {
-		return nil, responseLength, errShortRead
+
+	responseLengthBuf := make([]byte, 4)
+	if _, err = io.ReadFull(conn, responseLengthBuf); err != nil {
+		return nil, responseLength, err
 	}
 
 	responseLength = binary.BigEndian.Uint32(responseLengthBuf)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
 
 	reader := &io.LimitedReader{
-		R: broker.conn,
+		R: conn,
 		N: int64(responseLength),
 	}
 	return reader, responseLength, nil
@@ -368,13 +391,13 @@ func (broker *Broker) requestOffsets(clientID, topic string, partitionIDs []int3
 }
 
 func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.Reader, responseLength uint32, err error) {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
 	if err := broker.ensureOpen(); err != nil {
 		return nil, 0, err
 	}
 
-	broker.mux.Lock()
-	defer broker.mux.Unlock()
-
 	broker.correlationID++
 
 	fetchRequest.SetCorrelationID(broker.correlationID)
diff --git a/response.go b/response.go
index df43f67..d29b21a 100644
--- a/response.go
+++ b/response.go
@@ -44,13 +44,17 @@ func (p defaultReadParser) ReadAndParse() (Response, error) {
 // Read read a whole response data from broker. it firstly read length of the response data, then read the whole response data
 func (p defaultReadParser) Read() ([]byte, error) {
 	//TODO use LimitedReader
+	conn, err := p.broker.getConn()
+	if err != nil {
+		return nil, err
+	}
 	l := 0
 	responseLengthBuf := make([]byte, 4)
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(responseLengthBuf[l:])
+		length, err := conn.Read(responseLengthBuf[l:])
 		if err != nil {
 			return nil, err
 		}
@@ -66,9 +70,9 @@ func (p defaultReadParser) Read() ([]byte, error) {
 	readLength := 0
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(resp[4+readLength:])
+		length, err := conn.Read(resp[4+readLength:])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From dea5c0c7356d9877da03eb925248bf58823d49c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:06 +0000
Subject: [PATCH 02/27] fix: decode fetch responses completely: short reads,
 empty and control batches, old message formats, nulls

---
 fetch_response.go | 290 +++++++++++++++++++---------------------------
 message.go        |  19 +--
 record.go         |  10 +-
 3 files changed, 140 insertions(+), 179 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index fef9dfa..5e9a7b7 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -1,6 +1,7 @@
 package healer
 
 import (
+	"bytes"
 	"compress/gzip"
 	"context"
 	"encoding/binary"
@@ -37,6 +38,7 @@ type FetchResponse struct {
 }
 
 var errFetchResponseTooShortNoRecordsMeta = errors.New("fetch response too short, could not get records metadata(form baseOffset to baseSequence)")
+var errFetchResponseInvalidLength = errors.New("invalid length of records in fetch response")
 
 type fetchResponseStreamDecoder struct {
 	ctx context.Context
@@ -55,6 +57,8 @@ type fetchResponseStreamDecoder struct {
 	startOffset int64
 
 	hasOneMessage bool
+
+	nextOffset int64 // offset after the last complete batch, including the messages that are not visible
 }
 
 var errShortRead = errors.New("short read")
@@ -123,163 +127,110 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 		if err != nil {
 			return nil, fmt.Errorf("uncompress lz4 records error: %w", err)
 		}
+	default:
+		return nil, fmt.Errorf("unknown compression type %d", compress)
 	}
 	return uncompressedBytes, nil
 }
 
-func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topicName string, partitionID int32, magic int, header17 []byte) (offset int, err error) {
-	firstMessageSet := true
-	// value is the bytes of whole record consists of (offset(int64) message_size(int32) message)
-	var value []byte
-	for {
-		if firstMessageSet {
-			firstMessageSet = false
-
-			// messageSize doesn't include the size of messageSize itself.
-			messageSize := int(binary.BigEndian.Uint32(header17[8:]))
-			if messageSize < 6 {
-				return
-			}
-
-			// 12 is the size of offset(int64) & message_size(int32) in header17
-			value = make([]byte, 12+messageSize)
-			n, e := streamDecoder.Read(value[17:])
-			offset += n
-			if e != nil {
-				return offset, e
-			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, header17)
-		} else {
-			buf, n, err := streamDecoder.read(12)
-			offset += n
-			if err != nil {
-				return offset, err
-			}
-			if n < 12 {
-				return offset, err
-			}
-			messageSize := int(binary.BigEndian.Uint32(buf[8:]))
-			value = make([]byte, 12+messageSize)
-			n, err = streamDecoder.Read(value[12:])
-			offset += n
-			if err != nil {
-				return offset, err
-			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, buf)
-		}
-
-		messageSet, err := DecodeToMessageSet(value)
-
-		if err != nil {
-			return offset, err
-		}
-
-		if len(messageSet) == 0 {
-			return offset, nil
-		}
+// decode one message of magic 0 or 1, value is the bytes of the whole message consists of (offset(int64) message_size(int32) message).
+// it may be a compressed message which consists of multiple messages
+func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topicName string, partitionID int32, value []byte) error {
+	// 26 is the size of a message of magic 0 which has neither key nor value
+	if len(value) < 26 {
+		return errFetchResponseInvalidLength
+	}
+	messageSet, err := DecodeToMessageSet(value)
+	if err != nil {
+		return err
+	}
 
-		// TODO send each message to the channel directly?
-		for i := range messageSet {
-			if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
-				return offset, err
-			}
+	// TODO send each message to the channel directly?
+	for i := range messageSet {
+		if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
+			return err
 		}
 	}
+	streamDecoder.nextOffset = int64(binary.BigEndian.Uint64(value)) + 1
+	return nil
 }
 
-// decode one recordBatch which consists of multiple records
-// offset returned equals to batchLength + 12
-func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName string, partitionID int32, header17 []byte) (offset int, err error) {
-	bytesBeforeRecordsLength := 44 // (magic, records count]
-	bytesBeforeRecords, n, err := streamDecoder.read(bytesBeforeRecordsLength)
-	if err != nil {
-		if err == io.ErrUnexpectedEOF {
-			return n, nil
+// decode one recordBatch which consists of multiple records.
+// buf is the bytes of the recordBatch, complete is false if it is truncated by maxsize parameter in fetch request
+func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName string, partitionID int32, buf []byte, complete bool) (err error) {
+	if len(buf) < 61 { // [baseOffset, records count]
+		if !complete {
+			return nil
 		}
-		return n, err
-	}
-
-	offset += n
-	if n < bytesBeforeRecordsLength {
-		return offset, errFetchResponseTooShortNoRecordsMeta
+		return errFetchResponseTooShortNoRecordsMeta
 	}
-	buf := make([]byte, len(bytesBeforeRecords)+len(header17))
-	copy(buf, header17)
-	copy(buf[len(header17):], bytesBeforeRecords)
 
 	baseOffset := int64(binary.BigEndian.Uint64(buf))
-	batchLength := binary.BigEndian.Uint32(buf[8:])
+	// batchLength := binary.BigEndian.Uint32(buf[8:])
 	// partitionLeaderEpoch := binary.BigEndian.Uint32(buf[12:])
 	// magic := buf[16]
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
-	compress := attributes & 0b11
-	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
+	compress := attributes & 0b111
+	logAppendTime := attributes&0b1000 != 0
+	isControlBatch := attributes&0b100000 != 0
+	lastOffsetDelta := int32(binary.BigEndian.Uint32(buf[23:]))
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
-	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
+	maxTimestamp := binary.BigEndian.Uint64(buf[35:])
 	// producerID := binary.BigEndian.Uint64(buf[43:])
 	// producerEpoch := binary.BigEndian.Uint16(buf[51:])
 	// baseSequence := binary.BigEndian.Uint32(buf[53:])
 
 	// count is not accurate, payload maybe truncated by maxsize parameter in fetch request
-	count := int(binary.BigEndian.Uint32(buf[57:]))
+	count := int(int32(binary.BigEndian.Uint32(buf[57:])))
 	// logger.Info("record batch info",
 	// 	"baseOffset", baseOffset, "batchLength", batchLength, "partitionLeaderEpoch", partitionLeaderEpoch,
 	// 	"magic", magic, "crc", crc, "attributes", attributes, "compress", compress, "lastOffsetDelta", lastOffsetDelta,
 	// 	"baseTimestamp", baseTimestamp, "maxTimestamp", maxTimestamp, "producerID", producerID, "producerEpoch",
 	// 	producerEpoch, "baseSequence", baseSequence, "count", count)
 
-	if count <= 0 {
-		return
-	}
-
-	r := io.LimitReader(streamDecoder, int64(batchLength)-49)
-	// set offset immediately because we have to skip the data even if uncompress error
-	offset += int(batchLength) - 49
-	uncompressedBytes, err := uncompress(int8(compress), r)
-	if err != nil {
-		io.ReadAll(r) // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
-		if streamDecoder.end() && streamDecoder.hasOneMessage {
-			return offset, nil
-		}
-		return offset, fmt.Errorf("uncompress records bytes error: %w", err)
-	}
-
-	uncompressedBytesOffset := 0
-	for i := 0; i < count; i++ {
-		record, o, err := DecodeToRecord(uncompressedBytes[uncompressedBytesOffset:])
+	if count > 0 && !isControlBatch {
+		uncompressedBytes, err := uncompress(int8(compress), bytes.NewReader(buf[61:]))
 		if err != nil {
-			if err == errUncompleteRecord {
-				err = nil
+			if !complete {
+				return nil
 			}
-			return offset, err
-		}
-		uncompressedBytesOffset += o
-		message := &Message{
-			Offset:     int64(record.offsetDelta) + baseOffset,
-			Timestamp:  uint64(record.timestampDelta) + baseTimestamp,
-			Attributes: record.attributes,
-			MagicByte:  2,
-			Key:        record.key,
-			Value:      record.value,
-			Headers:    record.Headers,
+			return fmt.Errorf("uncompress records bytes error: %w", err)
 		}
-		if err = streamDecoder.filterAndPutMessage(message, topicName, partitionID); err != nil {
-			return offset, err
+
+		uncompressedBytesOffset := 0
+		for i := 0; i < count; i++ {
+			record, o, err := DecodeToRecord(uncompressedBytes[uncompressedBytesOffset:])
+			if err != nil {
+				if err == errUncompleteRecord && !complete {
+					err = nil
+				}
+				return err
+			}
+			uncompressedBytesOffset += o
+			message := &Message{
+				Offset:     int64(record.offsetDelta) + baseOffset,
+				Timestamp:  uint64(record.timestampDelta) + baseTimestamp,
+				Attributes: record.attributes,
+				MagicByte:  2,
+				Key:        record.key,
+				Value:      record.value,
+				Headers:    record.Headers,
+			}
+			if logAppendTime {
+				message.Timestamp = maxTimestamp
+			}
+			if err = streamDecoder.filterAndPutMessage(message, topicName, partitionID); err != nil {
+				return err
+			}
 		}
 	}
 
-	return offset, nil
+	// the last records may have been removed by compaction, and a control batch has no visible record
+	if complete {
+		streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
+	}
+	return nil
 }
 
 func (streamDecoder *fetchResponseStreamDecoder) filterAndPutMessage(message *Message, topicName string, partitionID int32) (err error) {
@@ -316,47 +267,49 @@ func (streamDecoder *fetchResponseStreamDecoder) putMessage(msg *FullMessage) er
 // that is, `Record Batch`,`Record Batch`,`Record Batch`...
 func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName string, partitionID int32, messageSetSizeBytes int32, version uint16) (err error) {
 	defer func() {
-		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || err == &maxBytesTooSmall {
-			if streamDecoder.hasOneMessage {
-				err = nil
-			}
-		}
-		if !streamDecoder.hasOneMessage && err == nil {
+		if err == nil && !streamDecoder.hasOneMessage && streamDecoder.nextOffset <= streamDecoder.startOffset {
 			err = &maxBytesTooSmall
 		}
 	}()
 
-	var (
-		offset int
-		o      int
-	)
-	for offset < int(messageSetSizeBytes) {
+	remaining := int(messageSetSizeBytes)
+	if remaining > streamDecoder.totalLength-streamDecoder.offset {
+		remaining = streamDecoder.totalLength - streamDecoder.offset
+	}
+	for remaining > 0 {
 		// payload before magic: [BaseOffset: Magic]
-		header17, n, e := streamDecoder.read(17)
-		if e != nil {
-			if e == io.ErrUnexpectedEOF {
-				return nil
-			}
-			return e
+		if remaining < 17 { // truncated
+			_, _, err = streamDecoder.read(remaining)
+			return err
 		}
-		if n < 17 {
-			return
+		header17, n, err := streamDecoder.read(17)
+		if err != nil {
+			return err
 		}
-		offset += n
+		remaining -= n
 
-		magic := header17[16]
+		// batchLength doesn't include BaseOffset and itself, and 5 bytes following is in header17
+		length := int(int32(binary.BigEndian.Uint32(header17[8:]))) - 5
+		if length < 0 {
+			return errFetchResponseInvalidLength
+		}
+		complete := length <= remaining
+		if !complete {
+			length = remaining
+		}
+		payload, n, err := streamDecoder.read(length)
+		if err != nil {
+			return err
+		}
+		remaining -= n
+		payload = append(header17, payload...)
 
-		if magic < 2 {
-			o, err = streamDecoder.decodeMessageSetMagic0or1(topicName, partitionID, int(magic), header17)
-		} else {
-			o, err = streamDecoder.decodeRecordsMagic2(topicName, partitionID, header17)
+		if magic := header17[16]; magic >= 2 {
+			err = streamDecoder.decodeRecordsMagic2(topicName, partitionID, payload, complete)
+		} else if complete {
+			err = streamDecoder.decodeMessageSetMagic0or1(topicName, partitionID, payload)
 		}
-		offset += o
 		if err != nil {
-			// if err == errUncompleteRecord {
-			// 	hasAtLeastOneMessage = true
-			// 	return nil
-			// }
 			return err
 		}
 	}
@@ -369,18 +322,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		buf []byte = make([]byte, 8)
 	)
 
-	defer func() {
-		if errors.Is(err, io.EOF) {
-			err = &maxBytesTooSmall
-		}
-	}()
-
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.PartitionID = int32(binary.BigEndian.Uint32(buf))
 
-	if _, err = streamDecoder.Read(buf[:2]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:2]); err != nil {
 		return err
 	}
 	p.ErrorCode = int16(binary.BigEndian.Uint16(buf))
@@ -388,24 +335,24 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		return KafkaError(p.ErrorCode)
 	}
 
-	if _, err = streamDecoder.Read(buf[:8]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 		return err
 	}
 	// p.HighWatermark = int64(binary.BigEndian.Uint64(buf))
 
 	switch version {
 	case 7, 10:
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LastStableOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LogStartOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:4]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 			return err
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
@@ -415,12 +362,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 				FirstOffset int64
 			}, abortedTransactionsCount)
 			for i := 0; i < int(abortedTransactionsCount); i++ {
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
 
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
@@ -428,7 +375,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.RecordBatchesSize = int32(binary.BigEndian.Uint32(buf))
@@ -510,13 +457,16 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 	streamDecoder.offset = 0
 	streamDecoder.startOffset = startOffset
 	streamDecoder.hasOneMessage = false
+	streamDecoder.nextOffset = -1
 
 	if err := streamDecoder.decodeHeader(streamDecoder.version); err != nil {
 		return err
 	}
 	defer func() {
 		// 将 LimitedReader 中的剩余数据读取完毕
-		streamDecoder.readAll()
+		if streamDecoder.ctx.Err() == nil {
+			streamDecoder.readAll()
+		}
 
 		logger.V(5).Info("decode fetch response done", "correlationID", streamDecoder.correlationID)
 	}()
@@ -530,6 +480,10 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 	for i := 0; i < streamDecoder.responsesCount; i++ {
 		err := streamDecoder.decodeResponses(streamDecoder.version)
 		if err != nil {
+			if streamDecoder.ctx.Err() == nil {
+				// the next request is sent once the error is consumed, the remaining must not be left to it
+				streamDecoder.readAll()
+			}
 			msg := &FullMessage{
 				TopicName:   "",
 				PartitionID: -1,
diff --git a/message.go b/message.go
index 5d1c319..e9e39d9 100644
--- a/message.go
+++ b/message.go
@@ -1,9 +1,9 @@
 package healer
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"hash/crc32"
 )
 
@@ -38,12 +38,7 @@ type Message struct {
 type MessageSet []*Message
 
 func (message *Message) decompress() ([]byte, error) {
-	compression := CompressType(message.Attributes & 0b11)
-	compressor := NewCompressor(compression.String())
-	if compressor == nil {
-		return nil, fmt.Errorf("unknown Compression Type %s", compression)
-	}
-	return compressor.Compress(message.Value)
+	return uncompress(message.Attributes&0x07, bytes.NewReader(message.Value))
 }
 
 func (messageSet *MessageSet) Length() int {
@@ -175,6 +170,16 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 				// TODO go on to next message in the messageSet?
 				return messageSet, err
 			}
+			// offset of the messages inside is relative in magic 1, and the outer offset is that of the last one
+			if message.MagicByte == 1 && len(_messageSet) > 0 {
+				baseOffset := message.Offset - _messageSet[len(_messageSet)-1].Offset
+				for _, m := range _messageSet {
+					m.Offset += baseOffset
+					if message.Attributes&0x08 != 0 { // LogAppendTime
+						m.Timestamp = message.Timestamp
+					}
+				}
+			}
 			messageSet = append(messageSet, _messageSet...)
 		} else {
 			messageSet = append(messageSet, message)
diff --git a/record.go b/record.go
index 3dfdb3d..d423c62 100644
--- a/record.go
+++ b/record.go
@@ -22,8 +22,10 @@ func decodeHeader(payload []byte) (header RecordHeader, offset int) {
 
 	valueLength, o := binary.Varint(payload[offset:])
 	offset += o
-	header.Value = make([]byte, valueLength)
-	offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	if valueLength >= 0 { // -1 is null
+		header.Value = make([]byte, valueLength)
+		offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	}
 	return
 }
 
@@ -155,14 +157,14 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	keyLength, o := binary.Varint(payload[offset:])
 	offset += o
 
-	if keyLength > 0 {
+	if keyLength >= 0 { // -1 is null
 		record.key = make([]byte, keyLength)
 		offset += copy(record.key, payload[offset:offset+int(keyLength)])
 	}
 
 	valueLen, o := binary.Varint(payload[offset:])
 	offset += o
-	if valueLen > 0 {
+	if valueLen >= 0 { // -1 is null
 		record.value = make([]byte, valueLen)
 		offset += copy(record.value, payload[offset:offset+int(valueLen)])
 	}
-- 
2.43.0


From b6e984bd684abd0d1758beac227966297adf63ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:07 +0000
Subject: [PATCH 03/27] fix: consumer loses its leader, its position or its
 final commit on errors and on stop

---
 consumer.go        |  48 ++++++------
 simple_consumer.go | 178 +++++++++++++++++++++++++++++++++++----------
 2 files changed, 166 insertions(+), 60 deletions(-)

diff --git a/consumer.go b/consumer.go
index 9b72442..a4d4d6e 100644
--- a/consumer.go
+++ b/consumer.go
@@ -12,6 +12,7 @@ type Consumer struct {
 
 	brokers *Brokers
 	closed  bool
+	lock    sync.Mutex // protect closed and simpleConsumers
 
 	simpleConsumers []*SimpleConsumer
 	wg              sync.WaitGroup // wg is used to tell if all consumer has already stopped
@@ -90,7 +91,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		return nil, nil
 	}
 
-	c.simpleConsumers = make([]*SimpleConsumer, 0)
+	simpleConsumers := make([]*SimpleConsumer, 0)
 
 	for _, topicMetadatas := range metadataResponse.TopicMetadatas {
 		topicName := topicMetadatas.TopicName
@@ -107,20 +108,24 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
 			simpleConsumer.wg = &c.wg
 
-			for {
-				err := simpleConsumer.getCoordinator()
-				if err != nil {
-					logger.Error(err, "get coordinator failed")
-					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
-					continue
-				}
-				break
-			}
-			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			simpleConsumers = append(simpleConsumers, simpleConsumer)
 		}
 	}
 
-	logger.V(4).Info("create simple consumers", "simpleConsumerCount", len(c.simpleConsumers), "consumers", c.simpleConsumers)
+	c.lock.Lock()
+	if c.closed {
+		c.lock.Unlock()
+		for _, simpleConsumer := range simpleConsumers {
+			simpleConsumer.wg = nil
+			simpleConsumer.Stop()
+		}
+		return nil, nil
+	}
+	c.simpleConsumers = simpleConsumers
+	c.wg.Add(len(simpleConsumers))
+	c.lock.Unlock()
+
+	logger.V(4).Info("create simple consumers", "simpleConsumerCount", len(simpleConsumers), "consumers", simpleConsumers)
 
 	var offset int64
 	if c.config.FromBeginning {
@@ -129,8 +134,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		offset = -1
 	}
 
-	for _, simpleConsumer := range c.simpleConsumers {
-		c.wg.Add(1)
+	for _, simpleConsumer := range simpleConsumers {
 		simpleConsumer.Consume(offset, messages)
 	}
 
@@ -138,11 +142,14 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 }
 
 func (c *Consumer) stop() {
+	c.lock.Lock()
+	simpleConsumers := c.simpleConsumers
+	c.simpleConsumers = nil
 	c.closed = true
-	if c.simpleConsumers != nil {
-		for _, simpleConsumer := range c.simpleConsumers {
-			simpleConsumer.Stop()
-		}
+	c.lock.Unlock()
+
+	for _, simpleConsumer := range simpleConsumers {
+		simpleConsumer.Stop()
 	}
 }
 
@@ -159,11 +166,10 @@ func (consumer *Consumer) AwaitClose(timeout time.Duration) {
 		}
 	}()
 
-	consumer.stop()
-
 	go func() {
+		consumer.stop()
 		consumer.wg.Wait()
 		consumer.brokers.Close()
-		c <- true
+		close(c)
 	}()
 }
diff --git a/simple_consumer.go b/simple_consumer.go
index 273af5b..165b05d 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -5,8 +5,10 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"sync"
+	"sync/atomic"
 	"syscall"
 	"time"
 )
@@ -26,11 +28,13 @@ type SimpleConsumer struct {
 	ctx           context.Context
 	cancel        context.CancelFunc
 	stop          bool
+	stopLock      sync.Mutex
 	consumeLoopWg sync.WaitGroup
 
 	fromBeginning  bool
 	offset         int64
 	offsetCommited int64
+	commitLock     sync.Mutex
 
 	messages chan *FullMessage
 
@@ -147,6 +151,17 @@ var (
 	errNoLeader = errors.New("not leader found")
 )
 
+// isLeaderError tells if the leader of the partition should be found again:
+// UNKNOWN_TOPIC_OR_PARTITION LEADER_NOT_AVAILABLE NOT_LEADER_OR_FOLLOWER REPLICA_NOT_AVAILABLE
+func isLeaderError(err error) bool {
+	for _, code := range []int16{3, 5, 6, 9} {
+		if errors.Is(err, KafkaError(code)) {
+			return true
+		}
+	}
+	return false
+}
+
 // set c.leaderBroker
 func (c *SimpleConsumer) getLeaderBroker() error {
 	var (
@@ -168,10 +183,13 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	leaderBroker, err = c.brokers.NewBroker(leaderID)
 	if err != nil {
 		// FIXME refresh metadata
-		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID, "leaderAddress", c.brokers.brokers[leaderID].address)
+		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID)
 		return err
 	}
 
+	if c.leaderBroker != nil {
+		c.leaderBroker.Close()
+	}
 	c.leaderBroker = leaderBroker
 	logger.Info("leader broker created", "leaderID", leaderID, "leaderAddress", c.leaderBroker.GetAddress(), "topic", c.topic, "partitionID", c.partitionID)
 	return nil
@@ -193,10 +211,16 @@ func (c *SimpleConsumer) initOffset() {
 	}
 
 	for !c.stop {
-		if c.offset, err = c.getOffset(c.fromBeginning); err != nil {
+		var offset int64
+		if offset, err = c.getOffset(c.fromBeginning); err != nil {
 			logger.Error(err, "could not get offset", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			// maybe the leader changed
+			if err = c.getLeaderBroker(); err != nil {
+				logger.Error(err, "get leader broker error", "topic", c.topic, "partitionID", c.partitionID)
+			}
 		} else {
+			c.setOffset(offset)
 			logger.Info("fetched offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 			break
 		}
@@ -218,7 +242,15 @@ func (c *SimpleConsumer) getOffset(fromBeginning bool) (int64, error) {
 	if err := offsetsResponse.Error(); err != nil {
 		return -1, err
 	}
-	return int64(offsetsResponse.TopicPartitionOffsets[c.topic][0].GetOffset()), nil
+	for _, p := range offsetsResponse.TopicPartitionOffsets[c.topic] {
+		if p.Partition != c.partitionID {
+			continue
+		}
+		if offset := int64(p.GetOffset()); offset >= 0 {
+			return offset, nil
+		}
+	}
+	return -1, fmt.Errorf("no offset of %s-%d in offsets response", c.topic, c.partitionID)
 }
 
 func (c *SimpleConsumer) getCommitedOffet() error {
@@ -234,22 +266,23 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 	r := NewOffsetFetchRequest(apiVersion, c.config.ClientID, c.config.GroupID)
 	r.AddPartiton(c.topic, c.partitionID)
 
-	var (
-		res         OffsetFetchResponse
-		coordinator *Broker
-	)
+	var res OffsetFetchResponse
 
-	if c.belongTO != nil {
-		coordinator = c.belongTO.coordinator
-	} else {
-		coordinator = c.coordinator
-	}
-
-	for {
+	for !c.stop {
+		coordinator := c.coordinator
+		if c.belongTO != nil {
+			coordinator = c.belongTO.coordinator
+		}
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(500 * time.Millisecond)
+			// maybe the coordinator changed
+			if c.belongTO == nil {
+				if err := c.getCoordinator(); err != nil {
+					logger.Error(err, "failed to get coordinator")
+				}
+			}
 			continue
 		}
 
@@ -264,7 +297,7 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 		for _, p := range t.Partitions {
 			if int32(p.PartitionID) == c.partitionID {
 				if p.Offset >= 0 {
-					c.offset = p.Offset
+					c.setOffset(p.Offset)
 				}
 				break
 			}
@@ -276,9 +309,10 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 // Stop the consumer and wait for all relating go-routines to exit
 func (c *SimpleConsumer) Stop() {
 	logger.Info("stopping simple consumer", "topic", c.topic, "partitionID", c.partitionID)
+	c.stopLock.Lock()
 	c.cancel()
-
 	c.stop = true
+	c.stopLock.Unlock()
 
 	c.consumeLoopWg.Wait()
 
@@ -293,8 +327,12 @@ func (c *SimpleConsumer) Stop() {
 	}
 }
 
+func (c *SimpleConsumer) setOffset(offset int64) {
+	atomic.StoreInt64(&c.offset, offset)
+}
+
 // call this when simpleConsumer NOT belong to GroupConsumer, or call BelongTo.Commit()
-func (c *SimpleConsumer) commitOffset() bool {
+func (c *SimpleConsumer) commitOffset(offset int64) bool {
 	var apiVersion uint16
 	if c.config.OffsetsStorage == 1 {
 		apiVersion = 2
@@ -306,14 +344,18 @@ func (c *SimpleConsumer) commitOffset() bool {
 	offsetComimtReq.SetMemberID("")
 	offsetComimtReq.SetGenerationID(-1)
 	offsetComimtReq.SetRetentionTime(-1)
-	offsetComimtReq.AddPartiton(c.topic, c.partitionID, c.offset, "")
+	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
 	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
 	if err == nil {
-		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 		return true
 	}
-	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
+	// maybe the coordinator changed
+	if err := c.getCoordinator(); err != nil {
+		logger.Error(err, "failed to get coordinator")
+	}
 	return false
 }
 
@@ -321,22 +363,35 @@ func (c *SimpleConsumer) commitOffset() bool {
 // if simpleConsumer belong to a GroupConsumer, it uses groupconsumer to commit
 // else if it has GroupId, it use its own coordinator to commit
 func (c *SimpleConsumer) CommitOffset() {
-	if c.offset == c.offsetCommited {
-		logger.V(3).Info("current offset does not change, skip committing", "offset", c.offset, "topic", c.topic, "partitionID", c.partitionID)
+	c.commitLock.Lock()
+	defer c.commitLock.Unlock()
+
+	offset := atomic.LoadInt64(&c.offset)
+	if offset < 0 || offset == c.offsetCommited {
+		logger.V(3).Info("current offset does not change, skip committing", "offset", offset, "topic", c.topic, "partitionID", c.partitionID)
 		return
 	}
-	offset := c.offset
 	if c.belongTO != nil {
 		if c.belongTO.commitOffset(c.topic, c.partitionID, offset) {
 			c.offsetCommited = offset
 		}
 	} else if c.config.GroupID != "" {
-		if c.commitOffset() {
+		if c.commitOffset(offset) {
 			c.offsetCommited = offset
 		}
 	}
 }
 
+// commitFinally is called after the last message is consumed.
+func (c *SimpleConsumer) commitFinally() {
+	for i := 0; i < 3; i++ {
+		c.CommitOffset()
+		if c.belongTO != nil || c.offsetCommited == c.offset {
+			return
+		}
+	}
+}
+
 // Consume begins to fetch messages.
 // It create and return a new channel if you pass nil, or it returns the channel you passed.
 func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<-chan *FullMessage, error) {
@@ -347,9 +402,21 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	if messageChan == nil {
 		messages = make(chan *FullMessage, 100)
 	}
+
+	// Stop waits until Consume returns, and it must not begin after that
+	c.stopLock.Lock()
+	if c.stop {
+		c.stopLock.Unlock()
+		return messages, nil
+	}
+	c.consumeLoopWg.Add(1)
+	c.stopLock.Unlock()
+	defer c.consumeLoopWg.Done()
+
 	c.messages = messages
 
-	c.offset = offset
+	c.setOffset(offset)
+	c.fromBeginning = offset == -2
 
 	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 
@@ -376,31 +443,40 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		logger.V(3).Info("offset after init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 	}
 
+	if c.stop {
+		return messages, nil
+	}
+
+	loopDone := make(chan struct{})
 	if c.config.AutoCommit && c.config.GroupID != "" {
+		c.consumeLoopWg.Add(1)
 		go func() {
+			defer c.consumeLoopWg.Done()
 			ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.AutoCommitIntervalMS))
 			defer ticker.Stop()
 			for {
 				select {
 				case <-ticker.C:
 					c.CommitOffset()
-				case <-c.ctx.Done():
-					c.CommitOffset()
+				case <-loopDone: // nothing is delivered any more
+					c.commitFinally()
 					return
 				}
 			}
 		}()
 	}
 
-	go c.consumeLoop(messages)
+	c.consumeLoopWg.Add(1)
+	go func() {
+		defer c.consumeLoopWg.Done()
+		defer close(loopDone)
+		c.consumeLoop(messages)
+	}()
 
 	return messages, nil
 }
 
 func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
-	c.consumeLoopWg.Add(1)
-	defer c.consumeLoopWg.Done()
-
 	defer logger.Info("consume loop exit", "topic", c.topic, "partitionID", c.partitionID)
 
 	wg := &sync.WaitGroup{}
@@ -419,6 +495,10 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			}
 			logger.Error(err, "failed to fetch")
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			// maybe the leader changed
+			if err := c.getLeaderBroker(); err != nil {
+				logger.Error(err, "get leader broker error", "topic", c.topic, "partitionID", c.partitionID)
+			}
 			continue
 		}
 
@@ -432,8 +512,12 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		}
 
 		ctx, cancel := context.WithCancel(context.Background())
+		offset := c.offset
+		leaderBroker := c.leaderBroker
+		wg.Add(2)
 		go func() {
-			if err := frsd.streamDecode(ctx, c.offset); err != nil {
+			defer wg.Done()
+			if err := frsd.streamDecode(ctx, offset); err != nil {
 				if err == context.Canceled {
 					return
 				}
@@ -443,13 +527,21 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		}()
 
 		// consume all messages from one fetch response
-		wg.Add(1)
 		go func() {
 			c.consumeMessages(innerMessages, messages)
 			cancel()
 			wg.Done()
 		}()
 		wg.Wait()
+
+		if !frsd.end() && leaderBroker == c.leaderBroker {
+			// the next response must not be mixed with the remaining of this one
+			leaderBroker.Close()
+		}
+		// all messages have been consumed, go past the offsets which have no (visible) messages
+		if c.ctx.Err() == nil && frsd.nextOffset > c.offset {
+			c.setOffset(frsd.nextOffset)
+		}
 	}
 }
 
@@ -470,15 +562,23 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 			if os.IsTimeout(message.Error) || errors.Is(message.Error, io.EOF) || errors.Is(message.Error, syscall.EPIPE) {
 				c.leaderBroker.Close()
 			} else if message.Error == &maxBytesTooSmall {
-				c.config.FetchMaxBytes *= 2
+				if c.config.FetchMaxBytes > math.MaxInt32/2 {
+					c.config.FetchMaxBytes = math.MaxInt32
+				} else {
+					c.config.FetchMaxBytes *= 2
+				}
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-				c.offset, err = c.getOffset(c.fromBeginning)
-				if err != nil {
+				var offset int64
+				if offset, err = c.getOffset(c.fromBeginning); err != nil {
+					// keep the offset and try again later
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
+					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+				} else {
+					c.setOffset(offset)
 				}
-			} else if errors.Is(message.Error, KafkaError(6)) {
+			} else if isLeaderError(message.Error) {
 				c.leaderBroker.Close()
 				c.leaderBroker = nil
 				for !c.stop {
@@ -489,7 +589,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 						break
 					}
 				}
-			} else if errors.Is(message.Error, KafkaError(74)) {
+			} else if errors.Is(message.Error, KafkaError(74)) || errors.Is(message.Error, KafkaError(75)) {
 				c.refreshPartiton()
 			}
 			return
@@ -498,7 +598,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 			case <-c.ctx.Done():
 				return c.ctx.Err()
 			case messages <- message:
-				c.offset = message.Message.Offset + 1
+				c.setOffset(message.Message.Offset + 1)
 			}
 		}
 	}
-- 
2.43.0


From 1b7030fbe5ef744e40aea4d9979e067331126392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:56 +0000
Subject: [PATCH 04/27] fix: producer drops, misnumbers or misroutes messages:
 errors not returned, keys not copied, closed and moved partitions, acks=0

---
 broker.go           |  16 +++++++
 produce_request.go  |   4 +-
 produce_response.go |  25 ++++++----
 producer.go         | 114 ++++++++++++++++++++++++++++++++++++--------
 record.go           |   2 +-
 simple_producer.go  |  51 ++++++++++++++++----
 6 files changed, 172 insertions(+), 40 deletions(-)

diff --git a/broker.go b/broker.go
index 19460c4..e7bd2a8 100644
--- a/broker.go
+++ b/broker.go
@@ -248,6 +248,22 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 	return broker.requestAndGet(r)
 }
 
+// requestWithoutResponse sends a request that the broker does not respond to
+func (broker *Broker) requestWithoutResponse(r Request) error {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
+	if err := broker.ensureOpen(); err != nil {
+		return err
+	}
+
+	if _, err := broker.Request(r); err != nil {
+		broker.Close()
+		return err
+	}
+	return nil
+}
+
 // requestAndGet does the same as RequestAndGet, but the caller holds the lock and has opened the connection.
 // the connection is closed if the response is not got completely,
 // or the next request on it would read (the rest of) this response.
diff --git a/produce_request.go b/produce_request.go
index 8b8f9bb..65aa5c6 100644
--- a/produce_request.go
+++ b/produce_request.go
@@ -119,7 +119,7 @@ func (r *ProduceRequest) Encode(version uint16) (payload []byte) {
 		return nil
 	}
 
-	if r.APIVersion >= tags["StatesFilter"] {
+	if r.APIVersion >= tags["transactionalID"] {
 		if isFlexible {
 			_, err = writeCompactNullableString(buf, r.transactionalID)
 		} else {
@@ -169,7 +169,7 @@ func (r *ProduceRequest) Decode(data []byte, version uint16) error {
 	isFlexible := r.IsFlexible()
 
 	// Decode transactionalID if applicable
-	if r.APIVersion >= r.tags()["StatesFilter"] {
+	if r.APIVersion >= r.tags()["transactionalID"] {
 		if isFlexible {
 			r.transactionalID, o = compactNullableString(data[offset:])
 		} else {
diff --git a/produce_response.go b/produce_response.go
index 4d79488..7319a7c 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -17,7 +17,7 @@ type produceResponseP struct {
 	ErrorCode   int16
 	BaseOffset  int64
 
-	LogAppendTimeMs int64 `healer:"minVersion:3"`
+	LogAppendTimeMs int64 `healer:"minVersion:2"`
 	LogStartOffset  int64 `healer:"minVersion:5"`
 
 	RecordErrors []produceResponseRecordErrors `healer:"minVersion:8"`
@@ -50,7 +50,7 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 	offset += 8
 
 	tags := p.tags()
-	if version >= tags["GroupState"] {
+	if version >= tags["LogAppendTimeMs"] {
 		p.LogAppendTimeMs = int64(binary.BigEndian.Uint64(payload[offset:]))
 		offset += 8
 	}
@@ -84,8 +84,10 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 				offset += o
 			}
 
-			r.TaggedField, o = DecodeTaggedFields(payload[offset:])
-			offset += o
+			if isFlexible {
+				r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+				offset += o
+			}
 		}
 	}
 
@@ -98,6 +100,11 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 		offset += o
 	}
 
+	if isFlexible {
+		p.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return
 }
 
@@ -126,11 +133,13 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 	}
 	for j := range t.Partitions {
 		p := &t.Partitions[j]
-		p.decode(payload[offset:], version, isFlexible)
+		offset += p.decode(payload[offset:], version, isFlexible)
 	}
 
-	t.TaggedField, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if isFlexible {
+		t.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return
 }
@@ -165,7 +174,7 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 	}
 	offset += 4
 
-	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_DeleteAcls, version)
+	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_ProduceRequest, version)
 	offset += o
 
 	isFlexible := r.ResponseHeader.IsFlexible()
diff --git a/producer.go b/producer.go
index a8cf18c..24d099d 100644
--- a/producer.go
+++ b/producer.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math/rand"
 	"sync"
@@ -27,6 +28,9 @@ type Producer struct {
 	currentProducer      *SimpleProducer
 	lock                 sync.Mutex
 
+	closeChan chan struct{}
+	closed    bool
+
 	ctx context.Context
 }
 
@@ -45,6 +49,7 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 		topic:                topic,
 		pidToSimpleProducers: make(map[int32]*SimpleProducer),
 		leaderBrokersMapping: make(map[int32]*Broker),
+		closeChan:            make(chan struct{}),
 	}
 
 	brokerConfig := getBrokerConfigFromProducerConfig(&cfg)
@@ -67,10 +72,17 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	p.ctx = context.WithValue(ctx, parentProducerKey, p)
 
 	go func() {
-		for range time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond).C {
-			err := p.updateCurrentSimpleProducer()
-			if err != nil {
-				logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+		ticker := time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-ticker.C:
+				err := p.updateCurrentSimpleProducer()
+				if err != nil {
+					logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+				}
+			case <-p.closeChan:
+				return
 			}
 		}
 	}()
@@ -81,20 +93,28 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 // update metadata and currentProducer
 func (p *Producer) updateCurrentSimpleProducer() error {
 	metadataResponse, err := p.brokers.RequestMetaData(p.config.ClientID, []string{p.topic})
-	if err == nil {
-		err = metadataResponse.Error()
-	}
-	if err != nil {
+	// partitions without error are usable even if others are not
+	var e KafkaError
+	if err != nil && !errors.As(err, &e) {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
-	p.topicMeta = metadataResponse.TopicMetadatas[0]
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return fmt.Errorf("topic %s not found in metadata", p.topic)
+	}
+	topicMeta := metadataResponse.TopicMetadatas[0]
+	if topicMeta.TopicErrorCode != 0 {
+		return fmt.Errorf("get metadata of %s error: %w", p.topic, KafkaError(topicMeta.TopicErrorCode))
+	}
 
 	validPartitionID := make([]int32, 0)
-	for _, partition := range p.topicMeta.PartitionMetadatas {
+	for _, partition := range topicMeta.PartitionMetadatas {
 		if partition.PartitionErrorCode == 0 {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
 	}
+	if len(validPartitionID) == 0 {
+		return fmt.Errorf("no available partition in %s", p.topic)
+	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
 	sp, err := NewSimpleProducer(context.Background(), p.topic, partitionID, p.config)
 	if err != nil {
@@ -103,12 +123,21 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	if p.closed {
+		sp.Close()
+		return ErrProducerClosed
+	}
+	p.topicMeta = topicMeta
+	for _, sp := range p.pidToSimpleProducers {
+		p.followLeader(sp, false)
+	}
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
 	} else {
 		older := p.currentProducer
 		logger.Info("update current simple producer", "older", older, "oldLeader", older.leader, "new", sp, "newLeader", sp.leader)
+		p.followLeader(older, true)
 		p.currentProducer = sp
 		older.Close()
 	}
@@ -116,6 +145,42 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	return nil
 }
 
+// followLeader makes the simple producer send to the leader in the latest metadata. p.lock must be held.
+// own means that the connection to the leader belongs to the simple producer
+func (p *Producer) followLeader(sp *SimpleProducer, own bool) {
+	leaderID, err := p.getLeaderID(sp.partition)
+	if err != nil || leaderID == sp.leader.nodeID {
+		return
+	}
+	var leader *Broker
+	if own {
+		leader, err = p.brokers.NewBroker(leaderID)
+	} else {
+		leader, err = p.getLeaderBroker(leaderID)
+	}
+	if err != nil {
+		logger.Error(err, "failed to connect to the new leader", "topic", p.topic, "partitionID", sp.partition)
+		return
+	}
+	old := sp.setLeader(leader)
+	if own {
+		old.Close()
+	}
+}
+
+// getLeaderBroker returns the connection that is shared by the simple producers. p.lock must be held
+func (p *Producer) getLeaderBroker(leaderID int32) (*Broker, error) {
+	if broker, ok := p.leaderBrokersMapping[leaderID]; ok {
+		return broker, nil
+	}
+	broker, err := p.brokers.NewBroker(leaderID)
+	if err != nil {
+		return nil, fmt.Errorf("create broker %d error: %s", leaderID, err)
+	}
+	p.leaderBrokersMapping[leaderID] = broker
+	return broker, nil
+}
+
 // getLeaderID return the leader broker id of the partition from metadata cache
 func (p *Producer) getLeaderID(pid int32) (int32, error) {
 	for _, partition := range p.topicMeta.PartitionMetadatas {
@@ -131,9 +196,13 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return nil, ErrProducerClosed
+	}
+
 	if key == nil {
-		p.lock.Lock()
-		defer p.lock.Unlock()
 		return p.currentProducer, nil
 	}
 
@@ -147,13 +216,9 @@ func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 	if err != nil {
 		return nil, err
 	}
-	broker, ok := p.leaderBrokersMapping[leaderID]
-	if !ok {
-		broker, err = p.brokers.NewBroker(leaderID)
-		if err != nil {
-			return nil, fmt.Errorf("create broker %d error: %s", leaderID, err)
-		}
-		p.leaderBrokersMapping[leaderID] = broker
+	broker, err := p.getLeaderBroker(leaderID)
+	if err != nil {
+		return nil, err
 	}
 
 	ctx := context.WithValue(p.ctx, leaderKey, broker)
@@ -181,11 +246,19 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 		}
 		return err
 	}
-	return nil
+	return ErrProducerClosed
 }
 
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return
+	}
+	p.closed = true
+	close(p.closeChan)
+
 	if p.currentProducer != nil {
 		p.currentProducer.Close()
 	}
@@ -196,4 +269,5 @@ func (p *Producer) Close() {
 	for _, broker := range p.leaderBrokersMapping {
 		broker.Close()
 	}
+	p.brokers.Close()
 }
diff --git a/record.go b/record.go
index d423c62..60521b5 100644
--- a/record.go
+++ b/record.go
@@ -67,7 +67,7 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	keyLenBuf := make([]byte, binary.MaxVarintLen64)
 	if r.key == nil {
-		binary.PutVarint(keyLenBuf, -1)
+		n = binary.PutVarint(keyLenBuf, -1)
 	} else {
 		n = binary.PutVarint(keyLenBuf, int64(len(r.key)))
 	}
diff --git a/simple_producer.go b/simple_producer.go
index d304dc7..0c23a3b 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -46,7 +46,10 @@ func (p *SimpleProducer) createLeader() (*Broker, error) {
 	}
 
 	leaderID, err := p.brokers.findLeader(p.config.ClientID, p.topic, p.partition)
-	if err != nil || leaderID == -1 {
+	if err == nil && leaderID == -1 {
+		err = fmt.Errorf("%s-%d has no leader", p.topic, p.partition)
+	}
+	if err != nil {
 		logger.Error(err, "could not get leader", "topic", p.topic, "partitionID", p.partition)
 		return nil, err
 	}
@@ -103,6 +106,7 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	} else {
 		p.leader, err = p.createLeader()
 		if err != nil {
+			p.closeBrokers()
 			return nil, fmt.Errorf("create producer leader error: %w", err)
 		}
 	}
@@ -115,6 +119,7 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	// TODO wait to the next ticker to see if messageSet changes
 	go func() {
 		ticker := time.NewTicker(time.Duration(p.config.FlushIntervalMS) * time.Millisecond)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ticker.C:
@@ -139,12 +144,18 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	valueCopy := make([]byte, len(value))
 	copy(valueCopy, value)
 
+	var keyCopy []byte
+	if key != nil {
+		keyCopy = make([]byte, len(key))
+		copy(keyCopy, key)
+	}
+
 	record := Record{
 		attributes:     0x00, // compress in upper message set level
 		timestampDelta: 0,
-		offsetDelta:    0,
+		offsetDelta:    int32(len(p.records)),
 
-		key:   key,
+		key:   keyCopy,
 		value: valueCopy,
 	}
 
@@ -152,7 +163,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	if len(p.records) >= p.config.MessageMaxCount {
 		records := p.records
 		p.records = make([]*Record, 0, p.config.MessageMaxCount)
-		p.flush(records)
+		return p.flush(records)
 	}
 	return nil
 }
@@ -213,9 +224,12 @@ func (p *SimpleProducer) flush(records []*Record) error {
 		p.createRecordBatch(records),
 	}
 
-	rp, err := p.leader.RequestAndGet(produceRequest)
-	if err == nil {
-		err = rp.Error()
+	var err error
+	if p.config.Acks == 0 {
+		// the broker sends no response
+		err = p.leader.requestWithoutResponse(produceRequest)
+	} else {
+		_, err = p.leader.RequestAndGet(produceRequest)
 	}
 	if err != nil {
 		logger.Error(err, "failed to produce request")
@@ -230,9 +244,13 @@ func (p *SimpleProducer) Close() {
 		p.lock.Lock()
 		defer p.lock.Unlock()
 
+		p.closed = true
+
 		logger.Info("flush before SimpleProducer close")
 		if len(p.records) > 0 {
-			p.flush(p.records)
+			records := p.records
+			p.records = nil
+			p.flush(records)
 		}
 
 		if p.parent == nil {
@@ -241,8 +259,23 @@ func (p *SimpleProducer) Close() {
 		} else {
 			logger.Info("connection not closed here, parent will close it")
 		}
+		p.closeBrokers()
 
 		close(p.closeChan)
-		p.closed = true
 	})
 }
+
+func (p *SimpleProducer) closeBrokers() {
+	if p.brokers != nil {
+		p.brokers.Close()
+		p.brokers = nil
+	}
+}
+
+// setLeader makes the producer send to another broker from now on, it returns the old one
+func (p *SimpleProducer) setLeader(leader *Broker) (old *Broker) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	old, p.leader = p.leader, leader
+	return old
+}
-- 
2.43.0


From 077c0ce1abb02d47ede998be6593864904291754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:41 +0000
Subject: [PATCH 05/27] fix: report a refused SASL handshake

---
 sasl_handshake_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index ad222f8..97a3f2d 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -32,7 +32,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.ErrorCode = int16(uint16(binary.BigEndian.Uint32(payload[offset:])))
+	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	if r.ErrorCode != 0 {
 		err = KafkaError(r.ErrorCode)
-- 
2.43.0


From 8296f6b626aa13e1a71e8f778d2b0ef0a1acccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:41 +0000
Subject: [PATCH 06/27] fix: stop a consumer that still waits for its
 coordinator

---
 consumer.go        | 12 +++++++++---
 simple_consumer.go |  7 ++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/consumer.go b/consumer.go
index a4d4d6e..f617f13 100644
--- a/consumer.go
+++ b/consumer.go
@@ -79,7 +79,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		topics = append(topics, topicName)
 	}
 
-	for !c.closed {
+	for !c.isClosed() {
 		if metadataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, topics); err != nil {
 			logger.Error(err, "get metadata failed", "topics", topics)
 			time.Sleep(time.Millisecond * 1000)
@@ -87,7 +87,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 			break
 		}
 	}
-	if c.closed {
+	if c.isClosed() {
 		return nil, nil
 	}
 
@@ -105,7 +105,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		}
 
 		for _, p := range partitions {
-			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
+			simpleConsumer := newSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers, c.isClosed)
 			simpleConsumer.wg = &c.wg
 
 			simpleConsumers = append(simpleConsumers, simpleConsumer)
@@ -141,6 +141,12 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 	return messages, nil
 }
 
+func (c *Consumer) isClosed() bool {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	return c.closed
+}
+
 func (c *Consumer) stop() {
 	c.lock.Lock()
 	simpleConsumers := c.simpleConsumers
diff --git a/simple_consumer.go b/simple_consumer.go
index 165b05d..0213acb 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -49,6 +49,11 @@ func (c *SimpleConsumer) String() string {
 
 // NewSimpleConsumerWithBrokers create a simple consumer with existing brokers
 func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config ConsumerConfig, brokers *Brokers) *SimpleConsumer {
+	return newSimpleConsumerWithBrokers(topic, partitionID, config, brokers, func() bool { return false })
+}
+
+// newSimpleConsumerWithBrokers does not wait for the coordinator any longer if giveUp returns true
+func newSimpleConsumerWithBrokers(topic string, partitionID int32, config ConsumerConfig, brokers *Brokers, giveUp func() bool) *SimpleConsumer {
 	c := &SimpleConsumer{
 		config:      config,
 		topic:       topic,
@@ -78,7 +83,7 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 
 	if config.GroupID != "" {
 		var err error
-		for {
+		for !giveUp() {
 			err = c.getCoordinator()
 			if err != nil {
 				logger.Error(err, "failed to get coordinator")
-- 
2.43.0


From bac99d252ed61da108ea6b7a3490497a10548eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:18 +0000
Subject: [PATCH 07/27] fix: closing a Brokers twice or while a broker is
 created crashed

---
 brokers.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brokers.go b/brokers.go
index 94e993f..e17d545 100644
--- a/brokers.go
+++ b/brokers.go
@@ -25,6 +25,14 @@ type Brokers struct {
 
 // Close close all brokers
 func (brokers *Brokers) Close() {
+	brokers.mutex.Lock()
+	defer brokers.mutex.Unlock()
+
+	select {
+	case <-brokers.closeChan: // already closed
+		return
+	default:
+	}
 	close(brokers.closeChan)
 	for _, broker := range brokers.brokers {
 		broker.Close()
-- 
2.43.0


From c56c5f65af48a13e72ee2be4531723200677e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:18 +0000
Subject: [PATCH 08/27] fix: assigning a topic nobody subscribed to, or a
 member without metadata, crashed the group leader

---
 assign.go | 3 +++
 group.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/assign.go b/assign.go
index d043cd1..58e0e63 100644
--- a/assign.go
+++ b/assign.go
@@ -16,6 +16,9 @@ type rangeAssignmentStrategy struct {
 // partitions in one topic
 // XXX (3,5)=>[(0,2),(2,2),(4,1)]  (5,10)=>[(0,2), (2,2), (4,2), (6,2), (8,2)]
 func (r *rangeAssignmentStrategy) assignPartitions(members []string, partitions []int32) map[string][]int32 {
+	if len(members) == 0 {
+		return nil
+	}
 	var (
 		rst       = make(map[string][]int32)
 		watershed = len(partitions) % len(members)
diff --git a/group.go b/group.go
index 87debf1..f0adb74 100644
--- a/group.go
+++ b/group.go
@@ -150,6 +150,9 @@ func NewProtocolMetadata(payload []byte) *ProtocolMetadata {
 		p      = &ProtocolMetadata{}
 		offset = 0
 	)
+	if len(payload) == 0 { // the member gave no metadata
+		return p
+	}
 	p.Version = binary.BigEndian.Uint16(payload[offset:])
 	offset += 2
 	SubscriptionCount := binary.BigEndian.Uint32(payload[offset:])
-- 
2.43.0


From b5784fe3293465841b0cbfaff0f13073c34198c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:18 +0000
Subject: [PATCH 09/27] fix: closing a group consumer while it joins crashed,
 hung or left goroutines that joined again

The wait group is now incremented together with being made visible to stop, the
join goroutine gives up after Close, Close may be called twice and honours its
timeout, offsets are not committed while the generation changes, and metadata
with an error on one topic or partition does not block the whole group.
---
 broker.go         |   5 +-
 group_consumer.go | 171 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 126 insertions(+), 50 deletions(-)

diff --git a/broker.go b/broker.go
index e7bd2a8..9aaae23 100644
--- a/broker.go
+++ b/broker.go
@@ -477,5 +477,8 @@ func (broker *Broker) requestHeartbeat(clientID, groupID string, generationID in
 func (broker *Broker) requestLeaveGroup(clientID, groupID string, memberID string) (r LeaveGroupResponse, err error) {
 	leaveReq := NewLeaveGroupRequest(clientID, groupID, memberID)
 	resp, err := broker.RequestAndGet(leaveReq)
-	return resp.(LeaveGroupResponse), err
+	if v, ok := resp.(LeaveGroupResponse); ok {
+		return v, err
+	}
+	return r, err
 }
diff --git a/group_consumer.go b/group_consumer.go
index 98c927a..db812df 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -30,8 +30,8 @@ type GroupConsumer struct {
 	topicMetadatas       []TopicMetadata // may contain some other topics which are consumed by other process with the same group
 	ifLeader             bool
 	joined               bool
-	closed               bool
-	closeChan            chan bool
+	closeOnce            sync.Once
+	closeChan            chan struct{} // closed by Close
 	coordinatorAvailable bool
 	topics               []string
 	partitionAssignments []*PartitionAssignment
@@ -85,7 +85,7 @@ func NewGroupConsumer(topic string, config interface{}) (*GroupConsumer, error)
 		joined:               false,
 		coordinatorAvailable: false,
 
-		closeChan: make(chan bool, 1),
+		closeChan: make(chan struct{}),
 
 		restartLocker: &sync.Mutex{},
 	}
@@ -93,6 +93,15 @@ func NewGroupConsumer(topic string, config interface{}) (*GroupConsumer, error)
 	return c, nil
 }
 
+func (c *GroupConsumer) isClosed() bool {
+	select {
+	case <-c.closeChan:
+		return true
+	default:
+		return false
+	}
+}
+
 // request metadata and set partition metadat to group-consumer. only leader should request this
 func (c *GroupConsumer) getTopicPartitionInfo() {
 	// TODO if could not get meta, such as error 5:`There is no leader for this topic-partition as we are in the middle of a leadership election.`
@@ -112,9 +121,9 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 	for t := range _topics {
 		c.topics = append(c.topics, t)
 	}
-	for !c.closed {
+	for !c.isClosed() {
 		metaDataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, c.topics)
-		if err == nil {
+		if err == nil || canAssign(err, metaDataResponse.TopicMetadatas) {
 			break
 		} else {
 			logger.Error(err, "failed to get metadata", "topics", c.topics)
@@ -127,6 +136,23 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 	c.topicMetadatas = metaDataResponse.TopicMetadatas
 }
 
+// canAssign tells if the partitions in the metadata can be assigned, though there is an error in it.
+// A topic which does not exist or a partition without leader should not block the whole group
+func canAssign(err error, topicMetadatas []TopicMetadata) bool {
+	var e KafkaError
+	if !errors.As(err, &e) {
+		return false
+	}
+	any := false
+	for _, t := range topicMetadatas {
+		if t.TopicErrorCode == 5 { // the topic is just being created
+			return false
+		}
+		any = any || len(t.PartitionMetadatas) > 0
+	}
+	return any
+}
+
 // TODO getCoordinator may executed in dead loop and create too many connections to kafka clusters
 // TODO put this to brokers?
 func (c *GroupConsumer) getCoordinator() error {
@@ -146,23 +172,39 @@ func (c *GroupConsumer) getCoordinator() error {
 }
 
 func (c *GroupConsumer) parseGroupAssignments(memberAssignmentPayload []byte) error {
-	memberAssignment, err := NewMemberAssignment(memberAssignmentPayload)
-	if err != nil {
-		return err
+	memberAssignment := &MemberAssignment{}
+	if len(memberAssignmentPayload) > 0 { // it is empty if nothing is assigned to the member
+		var err error
+		if memberAssignment, err = NewMemberAssignment(memberAssignmentPayload); err != nil {
+			return err
+		}
 	}
 	b, _ := json.Marshal(memberAssignment)
 	logger.Info("parse memeber assignment", "assignment", b)
 	c.partitionAssignments = memberAssignment.PartitionAssignments
-	c.simpleConsumers = make([]*SimpleConsumer, 0)
+	simpleConsumers := make([]*SimpleConsumer, 0)
 
 	for _, partitionAssignment := range c.partitionAssignments {
 		for _, partitionID := range partitionAssignment.Partitions {
-			simpleConsumer := NewSimpleConsumerWithBrokers(partitionAssignment.Topic, partitionID, c.config, c.brokers)
+			if c.isClosed() {
+				break
+			}
+			// it uses the coordinator of the group consumer
+			simpleConsumer := newSimpleConsumerWithBrokers(partitionAssignment.Topic, partitionID, c.config, c.brokers, func() bool { return true })
 			simpleConsumer.belongTO = c
-			simpleConsumer.wg = &c.wg
-			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			simpleConsumers = append(simpleConsumers, simpleConsumer)
+		}
+	}
+
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.isClosed() {
+		for _, simpleConsumer := range simpleConsumers {
+			simpleConsumer.Stop()
 		}
+		return nil
 	}
+	c.simpleConsumers = simpleConsumers
 
 	return nil
 }
@@ -234,6 +276,10 @@ func (c *GroupConsumer) sync() error {
 	}
 	logger.Info("create group assignment", "assignment", groupAssignment)
 
+	if c.isClosed() {
+		return nil
+	}
+
 	syncGroupResponse, err := c.coordinator.requestSyncGroup(
 		c.config.ClientID, c.config.GroupID, c.generationID, c.memberID, groupAssignment)
 
@@ -261,7 +307,7 @@ func (c *GroupConsumer) sync() error {
 
 func (c *GroupConsumer) joinAndSync() error {
 	var err error
-	for !c.closed {
+	for !c.isClosed() {
 		if !c.coordinatorAvailable {
 			err = c.getCoordinator()
 			if err != nil {
@@ -272,13 +318,13 @@ func (c *GroupConsumer) joinAndSync() error {
 		}
 		c.coordinatorAvailable = true
 
-		if c.closed {
+		if c.isClosed() {
 			return nil
 		}
 
 		err = c.join()
 
-		if c.closed {
+		if c.isClosed() {
 			return nil
 		}
 
@@ -308,7 +354,7 @@ func (c *GroupConsumer) heartbeat() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.joined {
+	if !c.joined || c.isClosed() {
 		return nil
 	}
 
@@ -319,6 +365,9 @@ func (c *GroupConsumer) heartbeat() error {
 
 // CommitOffset commit offset to kafka server
 func (c *GroupConsumer) CommitOffset() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	for _, s := range c.simpleConsumers {
 		s.CommitOffset()
 	}
@@ -362,9 +411,15 @@ func (c *GroupConsumer) restart() {
 	c.restartLocker.Lock()
 	defer c.restartLocker.Unlock()
 
+	if c.isClosed() {
+		return
+	}
+
 	c.stop()
 	// stop heartbeat
+	c.mutex.Lock()
 	c.joined = false
+	c.mutex.Unlock()
 	c.consumeWithoutHeartBeat(c.config.FromBeginning)
 
 }
@@ -386,6 +441,9 @@ func (c *GroupConsumer) stop() {
 }
 
 func (c *GroupConsumer) leave() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if !c.joined {
 		logger.Info("not joined yet, leave directly")
 		return
@@ -409,53 +467,58 @@ func (c *GroupConsumer) Close() {
 // AwaitClose will wait all simple consumers stop and then return
 // or timeout and return after some time
 func (c *GroupConsumer) AwaitClose(timeout time.Duration) {
-	defer c.brokers.Close()
-
-	c.closed = true
-	c.closeChan <- true
-
-	c.stop()
-
-	done := make(chan bool)
-	go func() {
-		c.wg.Wait()
-		done <- true
-	}()
-
-	select {
-	case <-done:
-		logger.Info("all simple consumers stopped. leave and return")
-	case <-time.After(timeout):
-		logger.Info("group consumer await timeout. return")
-		return
-	}
+	c.closeOnce.Do(func() {
+		defer c.brokers.Close()
+
+		close(c.closeChan)
+
+		done := make(chan bool, 1)
+		go func() {
+			c.stop()
+			done <- true
+		}()
+
+		select {
+		case <-done:
+			logger.Info("all simple consumers stopped. leave and return")
+		case <-time.After(timeout):
+			logger.Info("group consumer await timeout. return")
+			return
+		}
 
-	c.leave()
+		c.leave()
+	})
 }
 
 func (c *GroupConsumer) refreshMeta() {
 	var (
 		ticker *time.Ticker = time.NewTicker(time.Millisecond * time.Duration(c.config.MetadataMaxAgeMS))
 	)
-	for range ticker.C {
-		if c.closed {
+	defer ticker.Stop()
+	for {
+		select {
+		case <-c.closeChan:
 			return
+		case <-ticker.C:
 		}
-		if !c.ifLeader {
+
+		c.mutex.Lock()
+		joined, ifLeader, topics, topicMetadatas := c.joined, c.ifLeader, c.topics, c.topicMetadatas
+		c.mutex.Unlock()
+		if !joined || !ifLeader {
 			continue
 		}
 
 		logger.Info("refresh metadata (in goroutine)")
 
-		metaDataResponse, err := c.brokers.RequestMetaData(c.config.ClientID, c.topics)
-		if err != nil {
+		metaDataResponse, err := c.brokers.RequestMetaData(c.config.ClientID, topics)
+		if err != nil && !canAssign(err, metaDataResponse.TopicMetadatas) {
 			logger.Error(err, "request metadata (in goroutine) failed")
 			continue
 		}
 
-		if !ifTopicMetadatasSame(c.topicMetadatas, metaDataResponse.TopicMetadatas) {
+		if !ifTopicMetadatasSame(topicMetadatas, metaDataResponse.TopicMetadatas) {
 			logger.Info("metadata changed, restart group consumer")
-			c.topicMetadatas = metaDataResponse.TopicMetadatas
 			c.restart()
 		}
 	}
@@ -464,8 +527,6 @@ func (c *GroupConsumer) refreshMeta() {
 // Consume will join group and then cosumes messages from kafka.
 // it return a chan, and client could get messages from the chan
 func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage, error) {
-	c.closed = false
-
 	if messages == nil {
 		messages = make(chan *FullMessage, 100)
 	}
@@ -474,9 +535,12 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 	// go heartbeat
 	ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.SessionTimeoutMS) / 10)
 	go func() {
-		for range ticker.C {
-			if c.closed {
+		defer ticker.Stop()
+		for {
+			select {
+			case <-c.closeChan:
 				return
+			case <-ticker.C:
 			}
 			err := c.heartbeat()
 			if err != nil {
@@ -491,6 +555,8 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 		c.refreshMeta()
 	}()
 
+	c.restartLocker.Lock()
+	defer c.restartLocker.Unlock()
 	return c.consumeWithoutHeartBeat(c.config.FromBeginning)
 }
 
@@ -503,7 +569,7 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 	var err error
 	joinedChan := make(chan bool, 1)
 	go func() {
-		for !c.closed {
+		for !c.isClosed() {
 			err = c.joinAndSync()
 			if err == nil {
 				break
@@ -520,6 +586,12 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 	case <-joinedChan:
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.isClosed() {
+		return c.messages, nil
+	}
+
 	c.joined = true
 
 	// consume
@@ -531,6 +603,7 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 			offset = -1
 		}
 
+		simpleConsumer.wg = &c.wg
 		c.wg.Add(1)
 
 		go simpleConsumer.Consume(offset, c.messages)
-- 
2.43.0


From 44a5de0b92aa835b6732cc3d511633ac19bfcc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:21 +0000
Subject: [PATCH 10/27] fix: one leaderless partition or erroring topic kept
 clients from starting and siblings from being consumed; broker list races,
 stale controller, leaked connections

---
 brokers.go         | 126 ++++++++++++++++++++++-----------------------
 simple_consumer.go |   8 ++-
 2 files changed, 69 insertions(+), 65 deletions(-)

diff --git a/brokers.go b/brokers.go
index e17d545..5022d19 100644
--- a/brokers.go
+++ b/brokers.go
@@ -17,6 +17,7 @@ type Brokers struct {
 	brokersInfo  map[int32]*BrokerInfo
 	brokers      map[int32]*Broker
 	controllerID int32
+	infoLock     sync.RWMutex // guards brokersInfo and controllerID
 
 	mutex sync.Locker
 
@@ -41,9 +42,24 @@ func (brokers *Brokers) Close() {
 
 // BrokersInfo returns brokers info, it is a private member and should not be changed from outside
 func (brokers *Brokers) BrokersInfo() map[int32]*BrokerInfo {
+	brokers.infoLock.RLock()
+	defer brokers.infoLock.RUnlock()
 	return brokers.brokersInfo
 }
 
+// the map is never changed but replaced
+func (brokers *Brokers) setBrokersInfo(metadataResponse MetadataResponse) {
+	brokersInfo := make(map[int32]*BrokerInfo)
+	for _, brokerInfo := range metadataResponse.Brokers {
+		brokersInfo[brokerInfo.NodeID] = brokerInfo
+		logger.V(3).Info("brokers in cluster", "nodeID", brokerInfo.NodeID, "host", brokerInfo.Host, "port", brokerInfo.Port)
+	}
+	brokers.infoLock.Lock()
+	defer brokers.infoLock.Unlock()
+	brokers.brokersInfo = brokersInfo
+	brokers.controllerID = metadataResponse.ControllerID
+}
+
 // NewBrokersWithConfig create a new broker with config
 func NewBrokersWithConfig(bootstrapServers string, config *BrokerConfig) (*Brokers, error) {
 	logger.Info("create new brokers", "bootstrapServers", bootstrapServers, "config", config)
@@ -58,6 +74,7 @@ func NewBrokersWithConfig(bootstrapServers string, config *BrokerConfig) (*Broke
 			brokers, err := newBrokersFromOne(broker, clientID, config)
 			if err != nil {
 				logger.Error(err, "could not create broker list", "address", broker)
+				broker.Close()
 			} else {
 				brokers.bootstrapServers = bootstrapServers
 				return brokers, nil
@@ -85,7 +102,8 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 
 	topics := make([]string, 0)
 	metadataResponse, err := broker.requestMetaData(clientID, topics)
-	if err != nil {
+	var e KafkaError
+	if err != nil && !errors.As(err, &e) { // the error of a topic or a partition does not matter here
 		return nil, err
 	}
 	if len(metadataResponse.Brokers) == 0 {
@@ -94,16 +112,17 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
-	brokers.controllerID = metadataResponse.ControllerID
+	brokers.setBrokersInfo(metadataResponse)
+	known := false
 	for _, brokerInfo := range metadataResponse.Brokers {
-		brokers.brokersInfo[brokerInfo.NodeID] = brokerInfo
 		if broker.GetAddress() == brokerInfo.NetAddress() {
+			broker.nodeID = brokerInfo.NodeID
 			brokers.brokers[brokerInfo.NodeID] = broker
+			known = true
 		}
 	}
-
-	for nodeID, broker := range brokers.brokersInfo {
-		logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
+	if !known { // the bootstrap address is not what the cluster calls the broker, nobody will use this connection
+		broker.Close()
 	}
 
 	return brokers, nil
@@ -111,6 +130,8 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 
 // Controller return controller broker id
 func (brokers *Brokers) Controller() int32 {
+	brokers.infoLock.RLock()
+	defer brokers.infoLock.RUnlock()
 	return brokers.controllerID
 }
 
@@ -119,68 +140,43 @@ func (brokers *Brokers) GetController() (*Broker, error) {
 }
 
 func (brokers *Brokers) refreshMetadata() bool {
-	topics := make([]string, 0)
-	clientID := "healer-refresh-metadata"
+	refreshed := false
 
 	// from origianl bootstrapServers
 	for _, brokerAddr := range strings.Split(brokers.bootstrapServers, ",") {
-		broker, err := NewBroker(brokerAddr, -1, brokers.config)
-		if err != nil {
-			logger.Error(err, "create broker failed", "brokerAddress", brokerAddr)
-			continue
-		}
-
-		metadataResponse, err := broker.requestMetaData(clientID, topics)
-		if len(metadataResponse.Brokers) == 0 {
-			logger.Info("no broker returned from metadata response")
-			broker.Close()
-			continue
-		}
-
-		brokersInfo := make(map[int32]*BrokerInfo)
-		for _, brokerInfo := range metadataResponse.Brokers {
-			brokersInfo[brokerInfo.NodeID] = brokerInfo
-		}
-		brokers.brokersInfo = brokersInfo
-
-		for nodeID, broker := range brokers.brokersInfo {
-			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
-		}
+		refreshed = brokers.refreshMetadataFrom(brokerAddr) || refreshed
 	}
 
 	logger.Info("update metadata from latest brokersInfo")
 	// from latest brokersinfo
-	for _, brokerInfo := range brokers.brokersInfo {
-		brokerAddr := brokerInfo.NetAddress()
-		broker, err := NewBroker(brokerAddr, -1, brokers.config)
-		if err != nil {
-			logger.Error(err, "create broker failed", "brokerAddress", brokerAddr)
-			continue
-		}
-
-		metadataResponse, err := broker.requestMetaData(clientID, topics)
-		if len(metadataResponse.Brokers) == 0 {
-			logger.Info("no broker returned from metadata response")
-			continue
+	for _, brokerInfo := range brokers.BrokersInfo() {
+		if brokers.refreshMetadataFrom(brokerInfo.NetAddress()) {
+			return true
 		}
+	}
+	return refreshed
+}
 
-		brokersInfo := make(map[int32]*BrokerInfo)
-		for _, brokerInfo := range metadataResponse.Brokers {
-			brokersInfo[brokerInfo.NodeID] = brokerInfo
-		}
-		brokers.brokersInfo = brokersInfo
+func (brokers *Brokers) refreshMetadataFrom(brokerAddr string) bool {
+	broker, err := NewBroker(brokerAddr, -1, brokers.config)
+	if err != nil {
+		logger.Error(err, "create broker failed", "brokerAddress", brokerAddr)
+		return false
+	}
+	defer broker.Close()
 
-		for nodeID, broker := range brokers.brokersInfo {
-			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
-		}
-		return true
+	metadataResponse, err := broker.requestMetaData("healer-refresh-metadata", []string{})
+	if len(metadataResponse.Brokers) == 0 {
+		logger.Info("no broker returned from metadata response", "brokerAddress", brokerAddr, "error", err)
+		return false
 	}
-	return false
+	brokers.setBrokersInfo(metadataResponse)
+	return true
 }
 
 // TODO merge with GetBroker
 func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
-	if _, ok := brokers.brokersInfo[nodeID]; !ok {
+	if _, ok := brokers.BrokersInfo()[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
 		if !brokers.refreshMetadata() {
 			logger.Info("failed to refresh metadata")
@@ -188,7 +184,7 @@ func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
 	}
 
 	// try again after refereshing metadata
-	if brokerInfo, ok := brokers.brokersInfo[nodeID]; ok {
+	if brokerInfo, ok := brokers.BrokersInfo()[nodeID]; ok {
 		broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
 		if err == nil {
 			return broker, nil
@@ -208,14 +204,14 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 		return broker, nil
 	}
 
-	if _, ok := brokers.brokersInfo[nodeID]; !ok {
+	if _, ok := brokers.BrokersInfo()[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
 		if !brokers.refreshMetadata() {
 			logger.Info("failed to refresh metadata")
 		}
 	}
 
-	if brokerInfo, ok := brokers.brokersInfo[nodeID]; ok {
+	if brokerInfo, ok := brokers.BrokersInfo()[nodeID]; ok {
 		broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
 		if err == nil {
 			brokers.brokers[nodeID] = broker
@@ -229,7 +225,7 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 }
 
 func (brokers *Brokers) RequestMetaData(clientID string, topics []string) (r MetadataResponse, err error) {
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		broker, err := brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
 			logger.Error(err, "get broker failed", "host", brokerInfo.Host, "port", brokerInfo.Port)
@@ -262,6 +258,9 @@ func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32
 	}
 
 	// TODO only one topic
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return nil, fmt.Errorf("no metadata of topic[%s]", topic)
+	}
 	topicMetadata := metadataResponse.TopicMetadatas[0]
 
 	if partitionID >= 0 {
@@ -309,10 +308,11 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 		return -1, fmt.Errorf("could not get metadata of topic %s: %w", topic, err)
 	}
 
-	partitionMetadatas := metadataResponse.TopicMetadatas[0].PartitionMetadatas
-	for _, partitionMetadata := range partitionMetadatas {
-		if partitionMetadata.PartitionID == partitionID {
-			return partitionMetadata.Leader, nil
+	for _, topicMetadata := range metadataResponse.TopicMetadatas {
+		for _, partitionMetadata := range topicMetadata.PartitionMetadatas {
+			if partitionMetadata.PartitionID == partitionID {
+				return partitionMetadata.Leader, nil
+			}
 		}
 	}
 	return -1, fmt.Errorf("could not find out leader of topic %s", topic)
@@ -321,7 +321,7 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 // FindCoordinator try to requests FindCoordinator from all brokers and returns response
 func (brokers *Brokers) FindCoordinator(clientID, groupID string) (r FindCoordinatorResponse, err error) {
 	var broker *Broker
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		broker, err = brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
 			logger.Error(err, "get broker failed", "nodeId", brokerInfo.NodeID)
@@ -366,7 +366,7 @@ func (brokers *Brokers) ElectLeaders(req *ElectLeadersRequest) (r *ElectLeadersR
 
 // Request try to do request from all brokers until get the response
 func (brokers *Brokers) Request(req Request) (Response, error) {
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		broker, err := brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
 			continue
diff --git a/simple_consumer.go b/simple_consumer.go
index 0213acb..6a47be7 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -120,7 +120,8 @@ func NewSimpleConsumer(topic string, partitionID int32, config interface{}) (*Si
 
 func (c *SimpleConsumer) refreshPartiton() error {
 	metaDataResponse, err := c.brokers.RequestMetaData(c.config.ClientID, []string{c.topic})
-	if err != nil {
+	var e KafkaError
+	if err != nil && !errors.As(err, &e) { // maybe it is the error of another partition
 		return err
 	}
 	for _, topic := range metaDataResponse.TopicMetadatas {
@@ -595,7 +596,10 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 					}
 				}
 			} else if errors.Is(message.Error, KafkaError(74)) || errors.Is(message.Error, KafkaError(75)) {
-				c.refreshPartiton()
+				if err := c.refreshPartiton(); err != nil {
+					logger.Error(err, "failed to refresh partition", "topic", c.topic, "partitionID", c.partitionID)
+					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+				}
 			}
 			return
 		} else {
-- 
2.43.0


From 23a1eed4833478a370a52a9e492d68a8499d9d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 11/27] fix: encode administrative requests as the protocol
 defines them

Flexible request headers, compact and nullable strings and arrays, the
replica assignments of a new topic and three byte varints were written
wrongly, so brokers received something else than the caller asked for.
---
 alter_partition_reassignments_request.go |  8 ++++++--
 create_acls_request.go                   | 26 ++++++++++++++++--------
 create_partitions_request.go             | 13 ++++++++----
 create_topics_request.go                 |  8 ++++----
 delete_acls_request.go                   | 14 ++++++++-----
 describe_acls_request.go                 |  4 +++-
 list_groups_request.go                   |  4 ++--
 list_partition_reassignments_request.go  |  6 +++---
 primitive_type_encode.go                 |  2 +-
 request.go                               |  8 --------
 10 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/alter_partition_reassignments_request.go b/alter_partition_reassignments_request.go
index ba87d0f..34e7977 100644
--- a/alter_partition_reassignments_request.go
+++ b/alter_partition_reassignments_request.go
@@ -92,7 +92,7 @@ type AlterPartitionReassignmentsTopic struct {
 }
 
 func (r *AlterPartitionReassignmentsTopic) length(version uint16) (length int) {
-	length = 2 // len(TopicName)
+	length = 3 // len(TopicName)
 	length += len(r.TopicName)
 	length += 4 // len(Partitions)
 	for _, partition := range r.Partitions {
@@ -134,7 +134,11 @@ func (r *AlterPartitionReassignmentsPartition) encode(payload []byte) (offset in
 	binary.BigEndian.PutUint32(payload[offset:], uint32(r.PartitionID))
 	offset += 4
 
-	offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	if r.Replicas == nil { // null cancels the pending reassignment of the partition
+		offset += copy(payload[offset:], encodeCompactArrayLength(-1))
+	} else {
+		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	}
 
 	for _, replica := range r.Replicas {
 		binary.BigEndian.PutUint32(payload[offset:], uint32(replica))
diff --git a/create_acls_request.go b/create_acls_request.go
index 180bef2..cbddff5 100644
--- a/create_acls_request.go
+++ b/create_acls_request.go
@@ -24,10 +24,10 @@ type AclCreation struct {
 
 func (a *AclCreation) length() (n int) {
 	n += 1                       // resource type
-	n += 2 + len(a.ResourceName) // resource name
+	n += 3 + len(a.ResourceName) // resource name
 	n += 1                       // resource pattern type
-	n += 2 + len(a.Principal)    // principal
-	n += 2 + len(a.Host)         // host
+	n += 3 + len(a.Principal)    // principal
+	n += 3 + len(a.Host)         // host
 	n += 1                       // operation
 	n += 1                       // permission type
 	n += a.TaggedFields.length()
@@ -60,7 +60,9 @@ func (a *AclCreation) encodeTo(payload []byte, version uint16, headerVersion uin
 	offset++
 	payload[offset] = uint8(a.PermissionType)
 	offset++
-	offset += copy(payload[offset:], a.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], a.TaggedFields.Encode())
+	}
 
 	return
 }
@@ -103,7 +105,9 @@ func (r *CreateAclsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	// Write the tag buffer
-	offset += copy(payload[offset:], r.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], r.TaggedFields.Encode())
+	}
 
 	return payload
 }
@@ -173,15 +177,19 @@ func DecodeCreateAclsRequest(payload []byte) (r CreateAclsRequest, err error) {
 		creation.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if headerVersion >= 2 {
+			creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Creations[i] = *creation
 	}
 
 	// Decode TaggedFields
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if headerVersion >= 2 {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
diff --git a/create_partitions_request.go b/create_partitions_request.go
index 2a522c0..bf2a13c 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -84,7 +84,11 @@ func (r *createPartitionsRequestTopicBlock) encode(payload []byte, version uint1
 			offset += binary.PutUvarint(payload[offset:], 1+uint64(len(r.Assignments)))
 		}
 	case 0:
-		binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		if r.Assignments == nil {
+			binary.BigEndian.PutUint32(payload[offset:], 0xFFFFFFFF)
+		} else {
+			binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		}
 		offset += 4
 	}
 	for _, assignment := range r.Assignments {
@@ -102,19 +106,20 @@ func (r *CreatePartitionsRequest) length(version uint16) (length int) {
 	length = r.RequestHeader.length()
 	length += 4
 	for _, topic := range r.Topics {
-		length += 2 + len(topic.Name)                  // name
+		length += 3 + len(topic.Name)                  // name
 		length += 4                                    // count
 		length += 4                                    // assignments length
 		for _, assignment := range topic.Assignments { // assignments
 			length += 4
 			length += 4 * len(assignment.BrokerIDs)
-			length++ // TAG_BUFFER
+			length += assignment.TaggedFields.length()
 		}
+		length += topic.TaggedFields.length()
 	}
 	length += 4 // timeout_ms
 	length++    // validate_only
 	if version == 2 {
-		length += 4 // TAG_BUFFER
+		length += r.TaggedFields.length()
 	}
 	return
 }
diff --git a/create_topics_request.go b/create_topics_request.go
index ee854e9..8b69bab 100644
--- a/create_topics_request.go
+++ b/create_topics_request.go
@@ -183,12 +183,12 @@ func (r *CreateTopicsRequest) AddReplicaAssignment(topic string, pid int32, repl
 		return errorTopicNotFound
 	}
 
+	if pid < 0 {
+		return errorPidOutOfRange
+	}
+
 	found = false
 	for _, ra := range rr.ReplicaAssignments {
-		if ra.Partition >= pid {
-			return errorPidOutOfRange
-		}
-
 		if ra.Partition == pid {
 			found = true
 			ra.Replicas = replicas
diff --git a/delete_acls_request.go b/delete_acls_request.go
index f4e8213..ec43cf5 100644
--- a/delete_acls_request.go
+++ b/delete_acls_request.go
@@ -18,20 +18,21 @@ type DeleteAclsFilter struct {
 
 func (f *DeleteAclsFilter) length() (n int) {
 	n += 1 // resource type filter
-	n += 2
+	n += 3
 	if f.ResourceName != nil {
 		n += len(*f.ResourceName)
 	}
 	n += 1 // pattern type filter
-	n += 2
+	n += 3
 	if f.Principal != nil {
 		n += len(*f.Principal)
 	}
-	n += 2
+	n += 3
 	if f.Host != nil {
 		n += len(*f.Host)
 	}
 	n += 1 // operation
+	n += 1 // permission type
 
 	n += f.TaggedFields.length()
 	return
@@ -97,6 +98,7 @@ func (r *DeleteAclsRequest) length() (n int) {
 	for _, filter := range r.Filters {
 		n += filter.length()
 	}
+	n += 4 + r.TaggedFields.length()
 	return n
 }
 
@@ -195,8 +197,10 @@ func DecodeDeleteAclsRequest(payload []byte) (*DeleteAclsRequest, error) {
 		f.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		f.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.RequestHeader.IsFlexible() {
+			f.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Filters[i] = f
 	}
diff --git a/describe_acls_request.go b/describe_acls_request.go
index 2fa0509..b77b6c5 100644
--- a/describe_acls_request.go
+++ b/describe_acls_request.go
@@ -58,7 +58,9 @@ func (r *DescribeAclsRequest) Encode(version uint16) (rst []byte) {
 
 	binary.Write(buf, binary.BigEndian, r.PermissionType)
 
-	buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	if version >= 2 {
+		buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	}
 
 	return buf.Bytes()
 }
diff --git a/list_groups_request.go b/list_groups_request.go
index 84a4481..fe47aca 100644
--- a/list_groups_request.go
+++ b/list_groups_request.go
@@ -41,12 +41,12 @@ func (r *ListGroupsRequest) length() (n int) {
 
 	n += 4
 	for _, v := range r.StatesFilter {
-		n += 2 + len(v)
+		n += 3 + len(v)
 	}
 
 	n += 4
 	for _, v := range r.TypesFilter {
-		n += 2 + len(v)
+		n += 3 + len(v)
 	}
 
 	n += r.TaggedFields.length()
diff --git a/list_partition_reassignments_request.go b/list_partition_reassignments_request.go
index e4edaba..c128761 100644
--- a/list_partition_reassignments_request.go
+++ b/list_partition_reassignments_request.go
@@ -60,14 +60,14 @@ func (r ListPartitionReassignmentsRequest) length() int {
 	requestLength += 4 // TimeoutMS
 	requestLength += 4 // len(Topics)
 	for _, topic := range r.Topics {
-		requestLength += 2 + len(topic.Name) // len(TopicName)
+		requestLength += 3 + len(topic.Name) // len(TopicName)
 		requestLength += 4                   // len(Partitions)
 		for range topic.Partitions {
 			requestLength += 4 // PartitionID
 		}
-		requestLength++ // TaggedFields
+		requestLength += topic.TaggedFields.length()
 	}
-	requestLength++ // TaggedFields
+	requestLength += r.TaggedFields.length()
 	return requestLength
 }
 
diff --git a/primitive_type_encode.go b/primitive_type_encode.go
index 4361c3b..d70709b 100644
--- a/primitive_type_encode.go
+++ b/primitive_type_encode.go
@@ -116,7 +116,7 @@ func encodeNullableBytes(s []byte) []byte {
 		return binary.BigEndian.AppendUint32(nil, 0xFFFFFFFF)
 	}
 	payload := make([]byte, len(s)+4)
-	binary.BigEndian.AppendUint32(payload, uint32(len(s)))
+	binary.BigEndian.PutUint32(payload, uint32(len(s)))
 	offset := copy(payload[4:], s)
 	return payload[:4+offset]
 }
diff --git a/request.go b/request.go
index 7a94b44..5d15274 100644
--- a/request.go
+++ b/request.go
@@ -60,7 +60,6 @@ var availableVersions map[uint16][]uint16 = map[uint16][]uint16{
 
 // RequestHeader is the request header, which is used in all requests. It contains apiKey, apiVersion, correlationID, clientID
 type RequestHeader struct {
-	hv            *uint16 // header version
 	APIKey        uint16
 	APIVersion    uint16
 	CorrelationID uint32
@@ -216,13 +215,6 @@ func (h *RequestHeader) IsFlexible() bool {
 // The new serialization types start with compact.
 // For example COMPACT_STRING is a more efficient form of STRING.
 func (h *RequestHeader) headerVersion() (r uint16) {
-	if h.hv != nil {
-		return *h.hv
-	}
-	defer func() {
-		h.hv = &r
-	}()
-
 	_version := h.APIVersion
 	switch h.APIKey {
 	case 0: // Produce
-- 
2.43.0


From f3ccf9be822cc2641eae04f6643b8f46f884e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 12/27] fix: decode administrative responses as the broker sent
 them

Nullable strings, repeated resources, throttle times, group metadata and
log directory counts were dropped, misread or repeated; an error code in a
response was taken for a failure to parse it.
---
 alter_config_response.go                  | 11 +++++------
 alter_partition_reassignments_response.go |  8 ++++----
 create_acls_response.go                   | 18 ++++++++++++++---
 create_partitions_response.go             | 16 +++++++--------
 delete_acls_response.go                   | 24 +++++++++++++++--------
 delete_groups_response.go                 |  2 +-
 delete_topics_response.go                 |  2 +-
 describe_configs_response.go              | 16 ++++++---------
 describe_groups_response.go               | 15 +++++++++-----
 describe_logdirs_response.go              | 14 ++++++-------
 desscribe_acls_response.go                |  6 +++---
 helper.go                                 |  8 ++++++++
 incremental_alter_config_response.go      |  2 +-
 list_groups_response.go                   |  3 +++
 list_partition_reassignments_response.go  | 12 ++++++------
 metadata_response.go                      |  6 +++---
 offset_commit_response.go                 |  4 ----
 offset_fetch_response.go                  | 11 +++--------
 offset_response.go                        |  3 ++-
 primitive_types_decode.go                 |  3 +--
 20 files changed, 103 insertions(+), 81 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 69d3167..ad82e27 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -32,19 +32,18 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	l := int(binary.BigEndian.Uint16(payload[offset:]))
-	offset += 2
-	r.ErrorMessage = string(payload[offset : offset+l])
-	offset += l
+	message, o := nullableString(payload[offset:])
+	r.ErrorMessage = stringValue(message)
+	offset += o
 
 	r.ResourceType = payload[offset]
 	offset++
 
-	l = int(binary.BigEndian.Uint16(payload[offset:]))
+	l := int(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	r.ResourceName = string(payload[offset : offset+l])
 	offset += l
-	return
+	return offset
 }
 
 func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error) {
diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index 42162fe..3e7e0b3 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -19,12 +19,12 @@ type AlterPartitionReassignmentsResponse struct {
 
 func (r *AlterPartitionReassignmentsResponse) Error() error {
 	if r.ErrorCode != 0 {
-		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), *r.ErrorMsg)
+		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), stringValue(r.ErrorMsg))
 	}
 	for _, t := range r.Responses {
 		for _, p := range t.Partitions {
 			if p.ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), *p.ErrorMsg)
+				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), stringValue(p.ErrorMsg))
 			}
 		}
 	}
@@ -152,8 +152,8 @@ func NewAlterPartitionReassignmentsResponse(payload []byte, version uint16) (*Al
 
 			partitionCount, o := compactArrayLength(payload[offset:])
 			offset += o
-			if partitionCount <= 0 {
-				topic.Partitions = nil
+			if partitionCount < 0 {
+				partitionCount = 0
 			}
 
 			topic.Partitions = make([]*alterPartitionReassignmentsResponseTopicPartition, partitionCount)
diff --git a/create_acls_response.go b/create_acls_response.go
index e7752fb..0dd37dd 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -7,8 +7,9 @@ import (
 
 type CreateAclsResponse struct {
 	ResponseHeader
-	Results      []AclCreationResult
-	TaggedFields TaggedFields
+	ThrottleTimeMs int32
+	Results        []AclCreationResult
+	TaggedFields   TaggedFields
 }
 
 type AclCreationResult struct {
@@ -42,6 +43,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_CreateAcls, version)
 	offset += o
 
+	r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+	offset += 4
+
 	var resultCount int32
 	if r.ResponseHeader.IsFlexible() {
 		resultCount, o = compactArrayLength(payload[offset:])
@@ -84,7 +88,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 }
 
 func (r *CreateAclsResponse) length() (n int) {
+	n = 4 // length
 	n += r.ResponseHeader.length()
+	n += 4 // throttle time
 	n += 4 // results count
 	for _, result := range r.Results {
 		n += 2 // error code
@@ -92,7 +98,9 @@ func (r *CreateAclsResponse) length() (n int) {
 		if result.ErrorMessage != nil {
 			n += len(*result.ErrorMessage) + 2
 		}
+		n += result.TaggedFields.length()
 	}
+	n += r.TaggedFields.length()
 	return n
 }
 
@@ -109,6 +117,10 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 	}()
 
 	offset += r.ResponseHeader.EncodeTo(payload[offset:])
+
+	binary.BigEndian.PutUint32(payload[offset:], uint32(r.ThrottleTimeMs))
+	offset += 4
+
 	if r.ResponseHeader.IsFlexible() {
 		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Results)))
 	} else {
@@ -127,7 +139,7 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 		}
 
 		if r.ResponseHeader.IsFlexible() {
-			offset += r.TaggedFields.EncodeTo(payload[offset:])
+			offset += result.TaggedFields.EncodeTo(payload[offset:])
 		}
 	}
 
diff --git a/create_partitions_response.go b/create_partitions_response.go
index 4861514..cb7a67f 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -24,7 +24,7 @@ type createPartitionsResponseResultBlock struct {
 func (r CreatePartitionsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, *result.ErrorMessage, KafkaError(result.ErrorCode))
+			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, stringValue(result.ErrorMessage), KafkaError(result.ErrorCode))
 		}
 	}
 	return nil
@@ -44,9 +44,9 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 
 	r.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
-	if version == 2 {
-		// TAG_BUFFER
-		offset++
+	if version >= 2 {
+		_, o := DecodeTaggedFields(payload[offset:])
+		offset += o
 	}
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
@@ -89,11 +89,11 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 			offset += o
 			r.Results[i].ErrorMessage = msg
 		}
-		// TAG_BUFFER
-		offset++
+		if version >= 2 {
+			_, o := DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
-	// TAG_BUFFER
-	offset++
 
 	return
 }
diff --git a/delete_acls_response.go b/delete_acls_response.go
index 3eb39ca..746136e 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -126,12 +126,12 @@ type DeleteAclsResponse struct {
 func (r *DeleteAclsResponse) Error() (err error) {
 	for i := range r.FilterResults {
 		if r.FilterResults[i].ErrorCode != 0 {
-			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), *r.FilterResults[i].ErrorMessage)
+			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), stringValue(r.FilterResults[i].ErrorMessage))
 		}
 		for j := range r.FilterResults[i].MatchingAcls {
 			if r.FilterResults[i].MatchingAcls[j].ErrorCode != 0 {
 				return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].MatchingAcls[j].ErrorCode),
-					*r.FilterResults[i].MatchingAcls[j].ErrorMessage)
+					stringValue(r.FilterResults[i].MatchingAcls[j].ErrorMessage))
 			}
 		}
 	}
@@ -195,12 +195,16 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 			offset += o
 		}
 
-		r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.ResponseHeader.IsFlexible() {
+			r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
 
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if r.ResponseHeader.IsFlexible() {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
@@ -243,9 +247,13 @@ func (r *DeleteAclsResponse) Encode() (payload []byte) {
 			buf.Write(m.encode(r.ResponseHeader.apiVersion, r.ResponseHeader.IsFlexible()))
 		}
 
-		buf.Write(fr.TaggedFields.Encode())
+		if r.ResponseHeader.IsFlexible() {
+			buf.Write(fr.TaggedFields.Encode())
+		}
 	}
 
-	buf.Write(r.TaggedFields.Encode())
+	if r.ResponseHeader.IsFlexible() {
+		buf.Write(r.TaggedFields.Encode())
+	}
 	return buf.Bytes()
 }
diff --git a/delete_groups_response.go b/delete_groups_response.go
index df9b6d6..1987eb0 100644
--- a/delete_groups_response.go
+++ b/delete_groups_response.go
@@ -19,7 +19,7 @@ type DeleteGroupsResponse struct {
 func (r DeleteGroupsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("delete group[%s] failed: %s", result.GroupID, KafkaError(result.ErrorCode))
+			return fmt.Errorf("delete group[%s] failed: %w", result.GroupID, KafkaError(result.ErrorCode))
 		}
 	}
 	return nil
diff --git a/delete_topics_response.go b/delete_topics_response.go
index b73a2d3..cb0e366 100644
--- a/delete_topics_response.go
+++ b/delete_topics_response.go
@@ -20,7 +20,7 @@ func (r DeleteTopicsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
 			allErrors = append(allErrors,
-				fmt.Errorf("delete topic[%s] failed: %s",
+				fmt.Errorf("delete topic[%s] failed: %w",
 					result.TopicName, KafkaError(result.ErrorCode)))
 		}
 	}
diff --git a/describe_configs_response.go b/describe_configs_response.go
index dbd4db5..36502e7 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -15,7 +15,7 @@ type DescribeConfigsResponse struct {
 func (r DescribeConfigsResponse) Error() error {
 	for _, resource := range r.Resources {
 		if resource.ErrorCode != 0 {
-			return fmt.Errorf("describe configs failed: %s", KafkaError(resource.ErrorCode))
+			return fmt.Errorf("describe configs failed: %w", KafkaError(resource.ErrorCode))
 		}
 	}
 	return nil
@@ -35,15 +35,11 @@ func decodeToDescribeConfigsResponseResource(payload []byte) (r describeConfigsR
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	if r.ErrorCode != 0 {
-		l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
-		offset += 2
-		if l > 0 {
-			r.ErrorMessage = string(payload[offset : offset+l])
-			offset += l
-		}
-	} else {
-		offset += 2
+	l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
+	offset += 2
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
 	}
 
 	r.ResourceType = uint8(payload[offset])
diff --git a/describe_groups_response.go b/describe_groups_response.go
index 3398e07..4674189 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -62,10 +62,6 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 		group.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
 
-		if err == nil && group.ErrorCode != 0 {
-			err = KafkaError(group.ErrorCode)
-		}
-
 		l = int(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
 		group.GroupID = string(payload[offset : offset+l])
@@ -109,6 +105,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
+			group.Members[i].MemberMetadata = make([]byte, l)
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
@@ -116,8 +113,16 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 			offset += 4
 			group.Members[i].RawMemberAssignment = make([]byte, l)
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
-			group.Members[i].MemberAssignment, err = NewMemberAssignment(group.Members[i].RawMemberAssignment)
 			offset += l
+
+			// members do not have assignment when the group is rebalancing,
+			// and groups of other protocol types encode it in their own way
+			if l > 0 && group.ProtocolType == "consumer" {
+				group.Members[i].MemberAssignment, err = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+				if err != nil {
+					return r, err
+				}
+			}
 		}
 
 		r.Groups[i] = group
diff --git a/describe_logdirs_response.go b/describe_logdirs_response.go
index b30bdf3..611ca23 100644
--- a/describe_logdirs_response.go
+++ b/describe_logdirs_response.go
@@ -38,7 +38,7 @@ func decodeToDescribeLogDirsResponseTopic(payload []byte, version uint16) (r Des
 	r.TopicName = string(payload[offset : offset+l])
 	offset += l
 
-	numPartitions := int(binary.BigEndian.Uint32(payload[offset:]))
+	numPartitions := int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 	if numPartitions == -1 {
 		r.Partitions = nil
@@ -54,7 +54,7 @@ func decodeToDescribeLogDirsResponseTopic(payload []byte, version uint16) (r Des
 	}
 
 	var o int
-	for i := 0; i < numPartitions; i++ {
+	for i := int32(0); i < numPartitions; i++ {
 		r.Partitions[i], o = decodeToDescribeLogDirsResponsePartition(payload[offset:], version)
 		offset += o
 	}
@@ -95,13 +95,13 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 	}
 	offset += 4
 
-	r.CoordinatorID = binary.BigEndian.Uint32(payload)
+	r.CoordinatorID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	numResults := int(binary.BigEndian.Uint32(payload[offset:]))
+	numResults := int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 	if numResults == -1 {
 		r.Results = nil
@@ -115,7 +115,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 		r.Results = make([]DescribeLogDirsResponseResult, numResults)
 	}
 
-	for i := 0; i < numResults; i++ {
+	for i := int32(0); i < numResults; i++ {
 		r.Results[i].ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
 
@@ -124,7 +124,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 		r.Results[i].LogDir = string(payload[offset : offset+l])
 		offset += l
 
-		numTopics := int(binary.BigEndian.Uint32(payload[offset:]))
+		numTopics := int32(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
 		if numTopics == -1 {
 			r.Results[i].Topics = nil
@@ -139,7 +139,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 		}
 
 		var o int
-		for j := 0; j < numTopics; j++ {
+		for j := int32(0); j < numTopics; j++ {
 			r.Results[i].Topics[j], o, err = decodeToDescribeLogDirsResponseTopic(payload[offset:], version)
 			offset += o
 			if err != nil {
diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index e8a9c3d..6cdae75 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -48,7 +48,7 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 	response.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	if version >= 1 {
+	if version >= 2 {
 		_, o = DecodeTaggedFields(payload[offset:])
 		offset += o
 	}
@@ -181,8 +181,8 @@ func (r *DescribeAclsResponse) Encode(version uint16) (rst []byte, err error) {
 	binary.Write(buf, binary.BigEndian, uint32(0))
 
 	binary.Write(buf, binary.BigEndian, r.CorrelationID)
-	if version >= 1 {
-		buf.Write(r.TaggedFields.Encode())
+	if version >= 2 {
+		buf.Write(TaggedFields(nil).Encode())
 	}
 	binary.Write(buf, binary.BigEndian, r.ThrottleTimeMs)
 	binary.Write(buf, binary.BigEndian, r.ErrorCode)
diff --git a/helper.go b/helper.go
index 9578d8c..29c460e 100644
--- a/helper.go
+++ b/helper.go
@@ -78,3 +78,11 @@ func (h *Helper) GetGroups() []string {
 
 	return groups
 }
+
+// stringValue returns the string s points to, or an empty string if s is nil
+func stringValue(s *string) string {
+	if s == nil {
+		return ""
+	}
+	return *s
+}
diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index c78f3c0..2defbb8 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -50,7 +50,7 @@ func decodeToIncrementalAlterConfigsResponseResource(payload []byte, version uin
 		r.ResourceName = string(payload[offset : offset+int(l)])
 		offset += int(l)
 	}
-	return
+	return r, offset
 }
 
 // NewIncrementalAlterConfigsResponse create a new IncrementalAlterConfigsResponse.
diff --git a/list_groups_response.go b/list_groups_response.go
index 000ad86..6cbe3fc 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -25,6 +25,9 @@ type ListGroupsResponse struct {
 }
 
 func (r *ListGroupsResponse) Error() error {
+	if r.ErrorCode != 0 {
+		return KafkaError(int16(r.ErrorCode))
+	}
 	return nil
 }
 
diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index de1e77a..300e7be 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -37,7 +37,7 @@ func decodeToListPartitionReassignmentsTopicBlock(payload []byte) (r listPartiti
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return
@@ -85,7 +85,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 			offset += 4
 		}
 	}
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 	return
 }
@@ -108,15 +108,15 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
+	_, o := DecodeTaggedFields(payload[offset:])
+	offset += o
+
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	offset++ // I do not know what this byte means, always 0x01 , additonal byte after ErrorMessage and before Topics
-
-	var o int
 	r.ErrorMessage, o = compactNullableString(payload[offset:])
 	offset += o
 
@@ -132,7 +132,7 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return r, err
diff --git a/metadata_response.go b/metadata_response.go
index 46b7e8a..db6366f 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -176,9 +176,9 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	}
 
 	if version >= 4 {
-		l := int(binary.BigEndian.Uint16(payload[offset:]))
-		r.ClusterID = string(payload[offset : offset+l])
-		offset += 2 + l
+		clusterID, o := nullableString(payload[offset:])
+		r.ClusterID = stringValue(clusterID)
+		offset += o
 	}
 	// ControllerID
 	r.ControllerID = int32(binary.BigEndian.Uint32(payload[offset:]))
diff --git a/offset_commit_response.go b/offset_commit_response.go
index 61c8fb8..72e61c8 100644
--- a/offset_commit_response.go
+++ b/offset_commit_response.go
@@ -75,10 +75,6 @@ func NewOffsetCommitResponse(payload []byte) (r OffsetCommitResponse, err error)
 			offset += 4
 			p.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 			offset += 2
-
-			if err == nil && p.ErrorCode != 0 {
-				err = KafkaError(p.ErrorCode)
-			}
 		}
 	}
 
diff --git a/offset_fetch_response.go b/offset_fetch_response.go
index ba09b09..acc7a34 100644
--- a/offset_fetch_response.go
+++ b/offset_fetch_response.go
@@ -72,16 +72,11 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 			offset += 4
 			p.Offset = int64(binary.BigEndian.Uint64(payload[offset:]))
 			offset += 8
-			l = int(binary.BigEndian.Uint16(payload[offset:]))
-			offset += 2
-			p.Metadata = string(payload[offset : offset+l])
-			offset += l
+			metadata, o := nullableString(payload[offset:])
+			p.Metadata = stringValue(metadata)
+			offset += o
 			p.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 			offset += 2
-
-			if err == nil && p.ErrorCode != 0 {
-				err = KafkaError(p.ErrorCode)
-			}
 		}
 	}
 
diff --git a/offset_response.go b/offset_response.go
index bf92db7..0c5bc39 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -52,8 +52,9 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	if version > 0 {
+	if version >= 2 {
 		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
 	}
 
 	topicLenght := int(binary.BigEndian.Uint32(payload[offset:]))
diff --git a/primitive_types_decode.go b/primitive_types_decode.go
index b712328..bf01742 100644
--- a/primitive_types_decode.go
+++ b/primitive_types_decode.go
@@ -81,11 +81,10 @@ func nullableBytes(payload []byte) (r []byte, offset int) {
 // Then N bytes follow. A null object is represented with a length of 0.
 func compactNullableBytes(payload []byte) (r []byte, offset int) {
 	length, o := binary.Uvarint(payload)
-	length--
-
 	if length == 0 {
 		return nil, o
 	}
+	length--
 	r = payload[o : o+int(length)]
 	return r, o + int(length)
 }
-- 
2.43.0


From 33ea9f92567d946ca02a1c0e2eb24002779d5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 13/27] fix: client calls return what the cluster answered

DeleteTopics could return a nil response, DescribeLogDirs left out brokers
that failed, broker_logger settings went to any broker, and UNKNOWN acl
operations and permissions were read as ANY.
---
 acl_types.go |  4 ++--
 client.go    | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index 65aa854..f99257e 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -182,7 +182,7 @@ func (o AclsOperation) MarshalText() ([]byte, error) {
 func (o *AclsOperation) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*o = AclsOperationAny
+		*o = AclsOperationUnknown
 	case "ANY", "1":
 		*o = AclsOperationAny
 	case "ALL", "2":
@@ -245,7 +245,7 @@ func (p AclsPermissionType) MarshalText() ([]byte, error) {
 func (p *AclsPermissionType) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*p = AclsPermissionTypeAny
+		*p = AclsPermissionTypeUnkown
 	case "ANY", "1":
 		*p = AclsPermissionTypeAny
 	case "DENY", "2":
diff --git a/client.go b/client.go
index 3619d2d..626cd7a 100644
--- a/client.go
+++ b/client.go
@@ -111,14 +111,14 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 			return nil, err
 		}
 		resp, err := broker.RequestAndGet(req)
-		if err != nil {
+		if resp == nil {
 			c.logger.Error(err, "describe logdirs failed", "broker", broker.String())
-			continue
+			return nil, err
 		}
 
 		topicSet := make(map[string]struct{})
-		for _, t := range topics {
-			topicSet[t] = struct{}{}
+		for _, t := range meta.TopicMetadatas {
+			topicSet[t.TopicName] = struct{}{}
 		}
 		r := resp.(DescribeLogDirsResponse)
 		rs := r.Results
@@ -157,6 +157,9 @@ func (c *Client) DeleteTopics(topics []string, timeoutMs int32) (r DeleteTopicsR
 	}
 
 	resp, err := controller.RequestAndGet(req)
+	if resp == nil {
+		return r, err
+	}
 	return resp.(DeleteTopicsResponse), err
 }
 
@@ -365,7 +368,7 @@ func (c *Client) DescribeConfigs(resourceType, resourceName string, keys []strin
 	req := NewDescribeConfigsRequest(c.clientID, resources)
 
 	var serverID int32
-	if resourceType == "broker" {
+	if resourceType == "broker" || resourceType == "broker_logger" {
 		if brokerID, e := strconv.Atoi(resourceName); e != nil {
 			return r, fmt.Errorf("broker id must be a number")
 		} else {
-- 
2.43.0


From f56a0da9da9d0c164db58573c33251f7b46b6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:41 +0000
Subject: [PATCH 14/27] fix: an answer without offsets (api version 0) was
 taken for offset 0

---
 offset_response.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/offset_response.go b/offset_response.go
index 0c5bc39..24c9430 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -78,6 +78,7 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 			offset += 2
 
 			if version == 0 {
+				p.Offset = -1 // if there is no offset before the given time
 				offsetLength := binary.BigEndian.Uint32(payload[offset:])
 				offset += 4
 
-- 
2.43.0


From d29f99d2b544ef7f9fb44628a2d389a806ff10b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:52 +0000
Subject: [PATCH 15/27] fix: ACL commands send what the flags say and refuse
 what they do not understand

The values were pasted into JSON and decoding errors ignored, so an unknown
operation, or a resource name with a quote, silently became the zero value.
The names String() prints are also accepted.
---
 acl_types.go                        |  8 ++++----
 command/healer/cmd/create-acls.go   | 18 +++++++++++++-----
 command/healer/cmd/delete-acls.go   | 18 +++++++++++++-----
 command/healer/cmd/describe-acls.go | 18 +++++++++++++-----
 4 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index f99257e..2a0644d 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -199,13 +199,13 @@ func (o *AclsOperation) UnmarshalText(text []byte) error {
 		*o = AclsOperationAlter
 	case "DESCRIBE", "8":
 		*o = AclsOperationDescribe
-	case "CLUSTER_ACTION", "9":
+	case "CLUSTER_ACTION", "CLUSTERACTION", "9":
 		*o = AclsOperationClusterAction
-	case "DESCRIBE_CONFIGS", "10":
+	case "DESCRIBE_CONFIGS", "DESCRIBECONFIGS", "10":
 		*o = AclsOperationDescribeConfigs
-	case "ALTER_CONFIGS", "11":
+	case "ALTER_CONFIGS", "ALTERCONFIGS", "11":
 		*o = AclsOperationAlterConfigs
-	case "IDEMPOTENT_WRITE", "12":
+	case "IDEMPOTENT_WRITE", "IDEMPOTENTWRITE", "12":
 		*o = AclsOperationIdempotentWrite
 	default:
 		return fmt.Errorf("unknown AclsOperation: %s", text)
diff --git a/command/healer/cmd/create-acls.go b/command/healer/cmd/create-acls.go
index 821f007..695de48 100644
--- a/command/healer/cmd/create-acls.go
+++ b/command/healer/cmd/create-acls.go
@@ -31,17 +31,21 @@ var createAclsCmd = &cobra.Command{
 		aclCreation := healer.AclCreation{}
 
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &aclCreation.ResourceType)
+		if err := aclCreation.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &aclCreation.ResourceName)
+			aclCreation.ResourceName = resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &aclCreation.PatternType)
+			if err := aclCreation.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+				return err
+			}
 		}
 
 		if aclCreation.Principal, err = cmd.Flags().GetString("principal"); err != nil {
@@ -53,10 +57,14 @@ var createAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &aclCreation.Operation)
+		if err := aclCreation.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &aclCreation.PermissionType)
+		if err := aclCreation.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.CreateAcls([]healer.AclCreation{aclCreation})
 		if err != nil {
diff --git a/command/healer/cmd/delete-acls.go b/command/healer/cmd/delete-acls.go
index f8409c7..43afc3d 100644
--- a/command/healer/cmd/delete-acls.go
+++ b/command/healer/cmd/delete-acls.go
@@ -32,17 +32,21 @@ var deleteAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &f.ResourceType)
+		if err := f.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &f.ResourceName)
+			f.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &f.PatternType)
+			if err := f.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+				return err
+			}
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +70,14 @@ var deleteAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &f.Operation)
+		if err := f.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &f.PermissionType)
+		if err := f.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DeleteAcls([]*healer.DeleteAclsFilter{f})
 		if err != nil {
diff --git a/command/healer/cmd/describe-acls.go b/command/healer/cmd/describe-acls.go
index 1a9113b..2fd412d 100644
--- a/command/healer/cmd/describe-acls.go
+++ b/command/healer/cmd/describe-acls.go
@@ -32,17 +32,21 @@ var describeAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &req.ResourceType)
+		if err := req.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &req.ResourceName)
+			req.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &req.PatternType)
+			if err := req.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+				return err
+			}
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +70,14 @@ var describeAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &req.Operation)
+		if err := req.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &req.PermissionType)
+		if err := req.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DescribeAcls(req)
 		if err != nil {
-- 
2.43.0


From 417d60c04c6412d81c5f395fe7e600354dca7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:52 +0000
Subject: [PATCH 16/27] fix: command line: report metadata errors, broker ids
 of assignments, broker configs go to that broker, all log dirs without
 --topics

---
 command/healer/cmd/alter-configs.go     | 18 ++++++++++++++----
 command/healer/cmd/create-partitions.go |  5 +++--
 command/healer/cmd/create-topic.go      |  2 +-
 command/healer/cmd/describe-logdirs.go  |  3 +++
 command/healer/cmd/get-metadata.go      |  8 ++++++++
 5 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/command/healer/cmd/alter-configs.go b/command/healer/cmd/alter-configs.go
index f2b4a56..3664533 100644
--- a/command/healer/cmd/alter-configs.go
+++ b/command/healer/cmd/alter-configs.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 
 	"github.com/childe/healer"
 	"github.com/spf13/cobra"
@@ -44,16 +45,25 @@ var alterConfigsCmd = &cobra.Command{
 			return fmt.Errorf("failed to create brokers from %s", brokers)
 		}
 
-		controller, err := bs.GetBroker(bs.Controller())
+		// the configs of a broker have to be altered on that broker
+		nodeID := bs.Controller()
+		if (resourceType == "broker" || resourceType == "broker_logger") && resourceName != "" {
+			id, err := strconv.ParseInt(resourceName, 10, 32)
+			if err != nil {
+				return fmt.Errorf("resource-name of a %s must be a broker id: %w", resourceType, err)
+			}
+			nodeID = int32(id)
+		}
+		broker, err := bs.GetBroker(nodeID)
 		if err != nil {
-			return fmt.Errorf("failed to create crotroller broker: %w", err)
+			return fmt.Errorf("failed to create broker %d: %w", nodeID, err)
 		}
-		klog.V(5).Infof("controller: %s", controller.GetAddress())
+		klog.V(5).Infof("broker: %s", broker.GetAddress())
 
 		r := healer.NewIncrementalAlterConfigsRequest(client)
 		r.AddConfig(healer.ConvertConfigResourceType(resourceType), resourceName, configName, configValue)
 
-		resp, err := controller.RequestAndGet(r)
+		resp, err := broker.RequestAndGet(r)
 		if err != nil {
 			return fmt.Errorf("faild to alter configs: %w", err)
 		}
diff --git a/command/healer/cmd/create-partitions.go b/command/healer/cmd/create-partitions.go
index e2ac44f..a55beaf 100644
--- a/command/healer/cmd/create-partitions.go
+++ b/command/healer/cmd/create-partitions.go
@@ -10,13 +10,14 @@ import (
 )
 
 func genPartitionAssignments(assignments string) (partitionAssignments [][]int32, err error) {
-	for i, brokerIDs := range strings.Split(assignments, ",") {
+	for _, brokerIDs := range strings.Split(assignments, ",") {
 		if brokerIDs == "" {
 			continue
 		}
 		partitionAssignments = append(partitionAssignments, []int32{})
+		i := len(partitionAssignments) - 1
 		for _, brokerID := range strings.Split(brokerIDs, ":") {
-			if _brokerID, err := strconv.Atoi(brokerID); err == nil {
+			if _brokerID, err := strconv.ParseInt(brokerID, 10, 32); err == nil {
 				partitionAssignments[i] = append(partitionAssignments[i], int32(_brokerID))
 			} else {
 				return nil, fmt.Errorf("failed to convert %s to int: %w", brokerID, err)
diff --git a/command/healer/cmd/create-topic.go b/command/healer/cmd/create-topic.go
index df8bc36..fe26e45 100644
--- a/command/healer/cmd/create-topic.go
+++ b/command/healer/cmd/create-topic.go
@@ -94,7 +94,7 @@ var createTopicCmd = &cobra.Command{
 		for pid, nodes := range strings.Split(replicaAssignment, ",") {
 			replicas[int32(pid)] = make([]int32, 0)
 			for _, node := range strings.Split(nodes, ":") {
-				nodeid, err := strconv.Atoi(node)
+				nodeid, err := strconv.ParseInt(node, 10, 32)
 				if err != nil {
 					return fmt.Errorf("invalid replica-assignment: %w", err)
 				}
diff --git a/command/healer/cmd/describe-logdirs.go b/command/healer/cmd/describe-logdirs.go
index bfe5480..816d866 100644
--- a/command/healer/cmd/describe-logdirs.go
+++ b/command/healer/cmd/describe-logdirs.go
@@ -32,6 +32,9 @@ var describeLogdirs = &cobra.Command{
 			return err
 		}
 
+		if len(topics) == 0 {
+			topics = nil // all topics
+		}
 		responses, err := admin.DescribeLogDirs(topics)
 		if err != nil {
 			return err
diff --git a/command/healer/cmd/get-metadata.go b/command/healer/cmd/get-metadata.go
index 582f898..fa1a0b6 100644
--- a/command/healer/cmd/get-metadata.go
+++ b/command/healer/cmd/get-metadata.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/childe/healer"
@@ -30,6 +31,13 @@ var getMetadataCmd = &cobra.Command{
 		} else {
 			metadataResponse, err = brokers.RequestMetaData(client, topics)
 		}
+		if err != nil {
+			// error codes of topics are part of the response, which is printed
+			var e healer.KafkaError
+			if !errors.As(err, &e) {
+				return fmt.Errorf("failed to get metadata: %w", err)
+			}
+		}
 
 		switch format {
 		case "json":
-- 
2.43.0


From 96725c8d4de8775638343c0b1f7fc00e596b38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:52 +0000
Subject: [PATCH 17/27] fix: api reports that it could not listen

---
 command/healer/cmd/api.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/command/healer/cmd/api.go b/command/healer/cmd/api.go
index 38cdb70..fd7761a 100644
--- a/command/healer/cmd/api.go
+++ b/command/healer/cmd/api.go
@@ -160,8 +160,7 @@ var apiCmd = &cobra.Command{
 		router.POST("/create-acls", wrap(apicontrollers.CreateAcls, client))
 		router.DELETE("/delete-acls", wrap(apicontrollers.DeleteAcls, client))
 
-		router.Run(fullAddress)
-		return nil
+		return router.Run(fullAddress)
 	},
 }
 
-- 
2.43.0


From 959e1d9c1c69aa6914e5701d9c10d0317e2e5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:53 +0000
Subject: [PATCH 18/27] fix: api: an error ends the request, timeouts out of
 range are refused, an empty body is no error, clients are closed

---
 .../cmd/apicontrollers/create-partitions.go   |  4 ++--
 .../cmd/apicontrollers/describe-logdirs.go    |  3 +++
 .../healer/cmd/apicontrollers/elect-leader.go |  7 +++---
 command/healer/cmd/apicontrollers/group.go    | 12 +++++++++-
 .../apicontrollers/partition-reassignments.go | 23 ++++++++++++-------
 command/healer/cmd/apicontrollers/topic.go    |  2 ++
 6 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/command/healer/cmd/apicontrollers/create-partitions.go b/command/healer/cmd/apicontrollers/create-partitions.go
index db51485..4adb3da 100644
--- a/command/healer/cmd/apicontrollers/create-partitions.go
+++ b/command/healer/cmd/apicontrollers/create-partitions.go
@@ -32,14 +32,14 @@ func CreatePartitions(c *gin.Context, client string) {
 	clientReq := struct {
 		Topic   string `json:"topic"`
 		Count   int32  `json:"count"`
-		Timeout int    `json:"timeout"`
+		Timeout uint32 `json:"timeout"`
 	}{}
 	if err := c.BindJSON(&clientReq); err != nil {
 		c.String(http.StatusBadRequest, fmt.Sprintf("reassignments value error: %s", err))
 		return
 	}
 
-	req := healer.NewCreatePartitionsRequest(client, uint32(clientReq.Timeout), false)
+	req := healer.NewCreatePartitionsRequest(client, clientReq.Timeout, false)
 	req.AddTopic(clientReq.Topic, clientReq.Count, nil)
 
 	controller, err := bs.GetBroker(bs.Controller())
diff --git a/command/healer/cmd/apicontrollers/describe-logdirs.go b/command/healer/cmd/apicontrollers/describe-logdirs.go
index feb0b1e..8bf4977 100644
--- a/command/healer/cmd/apicontrollers/describe-logdirs.go
+++ b/command/healer/cmd/apicontrollers/describe-logdirs.go
@@ -24,7 +24,9 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
+	defer admin.Close()
 
 	clientReq := struct {
 		Topics []string `json:"topics"`
@@ -37,6 +39,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	responses, err := admin.DescribeLogDirs(clientReq.Topics)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	c.JSON(http.StatusOK, responses)
diff --git a/command/healer/cmd/apicontrollers/elect-leader.go b/command/healer/cmd/apicontrollers/elect-leader.go
index 3acf695..2b02811 100644
--- a/command/healer/cmd/apicontrollers/elect-leader.go
+++ b/command/healer/cmd/apicontrollers/elect-leader.go
@@ -3,7 +3,6 @@ package apicontrollers
 import (
 	"fmt"
 	"net/http"
-	"strconv"
 
 	"github.com/childe/healer"
 	"github.com/gin-gonic/gin"
@@ -33,7 +32,7 @@ func ElectLeaders(c *gin.Context, client string) {
 	}
 
 	timeout := c.Query("timeout")
-	timeoutMS, err := strconv.Atoi(timeout)
+	timeoutMS, err := parseTimeout(timeout)
 	if err != nil {
 		c.String(http.StatusBadRequest, fmt.Sprintf("timeout value error: %s", err))
 		return
@@ -42,7 +41,7 @@ func ElectLeaders(c *gin.Context, client string) {
 	bootstrapServers := c.Query("bootstrap")
 	config := healer.DefaultBrokerConfig()
 	config.Net.TimeoutMSForEachAPI = make([]int, 68)
-	config.Net.TimeoutMSForEachAPI[healer.API_AlterPartitionReassignments] = timeoutMS
+	config.Net.TimeoutMSForEachAPI[healer.API_AlterPartitionReassignments] = int(timeoutMS)
 	bs, err := healer.NewBrokersWithConfig(bootstrapServers, config)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
@@ -50,7 +49,7 @@ func ElectLeaders(c *gin.Context, client string) {
 	}
 	defer bs.Close()
 
-	req := healer.NewElectLeadersRequest(int32(timeoutMS))
+	req := healer.NewElectLeadersRequest(timeoutMS)
 
 	for _, v := range topicPartitions {
 		req.Add(v.Topic, v.Partition)
diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 5023fd3..5c1c3cb 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -26,6 +26,8 @@ func ListGroups(c *gin.Context, clientID string) {
 		return
 	}
 
+	defer client.Close()
+
 	groups, err := client.ListGroups()
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
@@ -52,16 +54,21 @@ func DescribeGroups(c *gin.Context, client string) {
 	brokers, err := healer.NewBrokers(bootstrapServers)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
+	defer brokers.Close()
+
 	coordinatorResponse, err := brokers.FindCoordinator(client, group)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	coordinator, err := brokers.GetBroker(coordinatorResponse.Coordinator.NodeID)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	klog.Infof("coordinator for group[%s]:%s", group, coordinator.GetAddress())
@@ -70,6 +77,7 @@ func DescribeGroups(c *gin.Context, client string) {
 	resp, err := coordinator.RequestAndGet(req)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	groups := resp.(healer.DescribeGroupsResponse).Groups
@@ -164,12 +172,14 @@ func GetPending(c *gin.Context, client string) {
 
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer bs.Close()
 
 	offsets, err := getOffset(bs, topicName, client)
 	if err != nil {
-		klog.Errorf("get offsets error: %s", err)
+		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	partitions, err := getPartitions(bs, topicName, client)
diff --git a/command/healer/cmd/apicontrollers/partition-reassignments.go b/command/healer/cmd/apicontrollers/partition-reassignments.go
index 5a911be..12ce29c 100644
--- a/command/healer/cmd/apicontrollers/partition-reassignments.go
+++ b/command/healer/cmd/apicontrollers/partition-reassignments.go
@@ -10,6 +10,12 @@ import (
 	"github.com/gin-gonic/gin"
 )
 
+// parseTimeout parses a timeout, which is an int32 in requests
+func parseTimeout(s string) (int32, error) {
+	timeout, err := strconv.ParseInt(s, 10, 32)
+	return int32(timeout), err
+}
+
 // ListPartitionReassignments godoc
 // @Summary      列出分区重分配
 // @Description  获取当前正在进行的分区重分配信息
@@ -30,10 +36,10 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 
 	config := healer.DefaultBrokerConfig()
 
-	timeoutMS := 30000
+	timeoutMS := int32(30000)
 	timeout := c.Query("timeout")
 	if timeout != "" {
-		timeoutMS, err = strconv.Atoi(timeout)
+		timeoutMS, err = parseTimeout(timeout)
 		if err != nil {
 			c.String(http.StatusBadRequest, fmt.Sprintf("timeout value error: %s", err))
 			return
@@ -41,23 +47,24 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 	}
 
 	config.Net.TimeoutMSForEachAPI = make([]int, 68)
-	config.Net.TimeoutMSForEachAPI[healer.API_ListPartitionReassignments] = timeoutMS
+	config.Net.TimeoutMSForEachAPI[healer.API_ListPartitionReassignments] = int(timeoutMS)
 
 	bootstrapServers := c.Query("bootstrap")
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer admin.Close()
 
 	reassignments := make([]reassignment, 0)
-	if err := c.BindJSON(&reassignments); err != nil {
+	if err := c.ShouldBindJSON(&reassignments); err != nil {
 		if err != io.EOF {
 			c.String(http.StatusBadRequest, fmt.Sprintf("reassignments value error: %s", err))
 			return
 		}
 	}
-	req := healer.NewListPartitionReassignmentsRequest(client, int32(timeoutMS))
+	req := healer.NewListPartitionReassignmentsRequest(client, timeoutMS)
 	for _, v := range reassignments {
 		req.AddTP(v.Topic, v.Partition)
 	}
@@ -89,7 +96,7 @@ func AlterPartitionReassignments(c *gin.Context, client string) {
 	}
 
 	timeout := c.Query("timeout")
-	timeoutMS, err := strconv.Atoi(timeout)
+	timeoutMS, err := parseTimeout(timeout)
 	if err != nil {
 		c.String(http.StatusBadRequest, fmt.Sprintf("timeout value error: %s", err))
 		return
@@ -98,7 +105,7 @@ func AlterPartitionReassignments(c *gin.Context, client string) {
 	bootstrapServers := c.Query("bootstrap")
 	config := healer.DefaultBrokerConfig()
 	config.Net.TimeoutMSForEachAPI = make([]int, 68)
-	config.Net.TimeoutMSForEachAPI[healer.API_AlterPartitionReassignments] = timeoutMS
+	config.Net.TimeoutMSForEachAPI[healer.API_AlterPartitionReassignments] = int(timeoutMS)
 	bs, err := healer.NewBrokersWithConfig(bootstrapServers, config)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
@@ -111,7 +118,7 @@ func AlterPartitionReassignments(c *gin.Context, client string) {
 		c.String(http.StatusBadRequest, fmt.Sprintf("reassignments value error: %s", err))
 		return
 	}
-	req := healer.NewAlterPartitionReassignmentsRequest(int32(timeoutMS))
+	req := healer.NewAlterPartitionReassignmentsRequest(timeoutMS)
 	for _, v := range reassignments {
 		req.AddAssignment(v.Topic, v.Partition, v.Replicas)
 	}
diff --git a/command/healer/cmd/apicontrollers/topic.go b/command/healer/cmd/apicontrollers/topic.go
index 27cfd8f..729d779 100644
--- a/command/healer/cmd/apicontrollers/topic.go
+++ b/command/healer/cmd/apicontrollers/topic.go
@@ -45,6 +45,7 @@ func GetTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
@@ -85,6 +86,7 @@ func AlterTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
-- 
2.43.0


From b466b75cc23a5f8cc1bfecec7d76b03f640d1e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:37 +0000
Subject: [PATCH 19/27] fix: give every consumer its own table of request
 timeouts

A consumer wrote its timeouts into the table of the configuration it was
given: into the caller's slice, or into one shared by every consumer made
from the defaults, whose last configuration then ruled them all. A caller's
table shorter than the requests a consumer sends made it panic.
---
 config.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/config.go b/config.go
index 1e0cc76..32fadbc 100644
--- a/config.go
+++ b/config.go
@@ -133,9 +133,8 @@ func DefaultConsumerConfig() ConsumerConfig {
 }
 
 func (c *ConsumerConfig) resetTimeoutMSForEachAPI() {
-	if len(c.Net.TimeoutMSForEachAPI) == 0 {
-		c.Net.TimeoutMSForEachAPI = make([]int, 68)
-	}
+	// always a new slice, the old one may belong to the user or to another consumer
+	c.Net.TimeoutMSForEachAPI = make([]int, 68)
 	for i := range c.Net.TimeoutMSForEachAPI {
 		c.Net.TimeoutMSForEachAPI[i] = c.Net.TimeoutMS
 	}
@@ -155,11 +154,11 @@ func createConsumerConfig(config interface{}) (c ConsumerConfig, err error) {
 
 	switch config := config.(type) {
 	case nil:
-		return defaultConsumerConfig, nil
+		return DefaultConsumerConfig(), nil
 	case map[string]interface{}:
-		c = defaultConsumerConfig
+		c = DefaultConsumerConfig()
 		if err := mapstructure.WeakDecode(config, &c); err != nil {
-			return defaultConsumerConfig, fmt.Errorf("decode consumer config error: %w", err)
+			return c, fmt.Errorf("decode consumer config error: %w", err)
 		}
 	case ConsumerConfig:
 		return config, nil
-- 
2.43.0


From 2e305deb135e2b06f26eda53b0e844b6cf4b7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:37 +0000
Subject: [PATCH 20/27] fix: refuse intervals a consumer or a producer cannot
 tick with

auto.commit.interval.ms, session.timeout.ms and metadata.max.age.ms end up in
time.NewTicker, which panics in the client's goroutines when they are not
positive.
---
 config.go   | 14 +++++++++++++-
 producer.go |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 32fadbc..01531c2 100644
--- a/config.go
+++ b/config.go
@@ -161,16 +161,22 @@ func createConsumerConfig(config interface{}) (c ConsumerConfig, err error) {
 			return c, fmt.Errorf("decode consumer config error: %w", err)
 		}
 	case ConsumerConfig:
-		return config, nil
+		c = config
 	default:
 		return c, fmt.Errorf("consumer only accept config from map[string]interface{} or ConsumerConfig")
 	}
+	if c.AutoCommit && c.GroupID != "" && c.AutoCommitIntervalMS <= 0 {
+		return c, errAutoCommitIntervalMS
+	}
 	return c, err
 }
 
 var (
 	errEmptyGroupID                 = errors.New("group.id is empty")
 	errInvallidOffsetsStorageConfig = errors.New("offsets.storage must be 0 or 1")
+	errAutoCommitIntervalMS         = errors.New("auto.commit.interval.ms must > 0")
+	errSessionTimeoutMS             = errors.New("session.timeout.ms must > 0")
+	errMetadataMaxAgeMS             = errors.New("metadata.max.age.ms must > 0")
 )
 
 func (config *ConsumerConfig) checkValid() error {
@@ -183,6 +189,12 @@ func (config *ConsumerConfig) checkValid() error {
 	if config.OffsetsStorage != 0 && config.OffsetsStorage != 1 {
 		return errInvallidOffsetsStorageConfig
 	}
+	if config.SessionTimeoutMS <= 0 {
+		return errSessionTimeoutMS
+	}
+	if config.MetadataMaxAgeMS <= 0 {
+		return errMetadataMaxAgeMS
+	}
 	return nil
 }
 
diff --git a/producer.go b/producer.go
index 24d099d..c9aab3e 100644
--- a/producer.go
+++ b/producer.go
@@ -43,6 +43,9 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	if err != nil {
 		return nil, err
 	}
+	if cfg.MetadataMaxAgeMS <= 0 {
+		return nil, errMetadataMaxAgeMS
+	}
 
 	p := &Producer{
 		config:               cfg,
-- 
2.43.0


From cba1a90efd90d53812cd5af687111086ce0adf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 21/27] fix: the producing and consuming commands refuse a
 malformed --config

They ignored the error and went on with the defaults.
---
 command/healer/cmd/config.go           | 17 +++++++++++++++++
 command/healer/cmd/console-consumer.go |  4 +++-
 command/healer/cmd/console-producer.go |  5 +++--
 command/healer/cmd/group-consumer.go   |  4 +++-
 command/healer/cmd/simple-consumer.go  |  4 +++-
 command/healer/cmd/simple-producer.go  |  5 +++--
 6 files changed, 32 insertions(+), 7 deletions(-)
 create mode 100644 command/healer/cmd/config.go

diff --git a/command/healer/cmd/config.go b/command/healer/cmd/config.go
new file mode 100644
index 0000000..12b1c0d
--- /dev/null
+++ b/command/healer/cmd/config.go
@@ -0,0 +1,17 @@
+package cmd
+
+import (
+	"encoding/json"
+	"fmt"
+)
+
+// parseConfig adds what the --config flag says, if it is given, to config
+func parseConfig(s string, config *map[string]interface{}) error {
+	if s == "" {
+		return nil
+	}
+	if err := json.Unmarshal([]byte(s), config); err != nil {
+		return fmt.Errorf("invalid --config: %w", err)
+	}
+	return nil
+}
diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 72bd844..f3d49e3 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -51,7 +51,9 @@ var consoleConsumerCmd = &cobra.Command{
 			return err
 		}
 
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if err := parseConfig(config, &consumerConfig); err != nil {
+			return err
+		}
 
 		var (
 			consumer *healer.Consumer
diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index 7e4e634..db9231c 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -2,7 +2,6 @@ package cmd
 
 import (
 	"bufio"
-	"encoding/json"
 	"errors"
 	"fmt"
 	"os"
@@ -40,7 +39,9 @@ var consoleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if err := parseConfig(config, &producerConfig); err != nil {
+			return err
+		}
 
 		consoleProducer, err := healer.NewProducer(topic, producerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 5a84994..d36a182 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -58,7 +58,9 @@ var groupConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if err := parseConfig(config, &consumerConfig); err != nil {
+			return err
+		}
 
 		consumer, err := healer.NewGroupConsumer(topic, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-consumer.go b/command/healer/cmd/simple-consumer.go
index d10f593..4f49d8e 100644
--- a/command/healer/cmd/simple-consumer.go
+++ b/command/healer/cmd/simple-consumer.go
@@ -63,7 +63,9 @@ var simpleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if err := parseConfig(config, &consumerConfig); err != nil {
+			return err
+		}
 
 		simpleConsumer, err := healer.NewSimpleConsumer(topic, partition, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 1fbb6ce..0aae9e3 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -3,7 +3,6 @@ package cmd
 import (
 	"bufio"
 	"context"
-	"encoding/json"
 	"errors"
 	"fmt"
 	"os"
@@ -45,7 +44,9 @@ var simpleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if err := parseConfig(config, &producerConfig); err != nil {
+			return err
+		}
 
 		simpleProducer, err := healer.NewSimpleProducer(context.Background(), topic, partition, producerConfig)
 		if err != nil {
-- 
2.43.0


From d92eb4b0f112386ec2909b5828251dc4e50809e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:52 +0000
Subject: [PATCH 22/27] fix: the producing commands fail when the last messages
 are not accepted

The last batch was sent by Close, which cannot report that it failed: the
command exited with 0 though its input was lost.
---
 command/healer/cmd/console-producer.go |  3 +++
 command/healer/cmd/simple-producer.go  |  3 +++
 producer.go                            | 20 ++++++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index db9231c..787af97 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -62,6 +62,9 @@ var consoleProducerCmd = &cobra.Command{
 			return fmt.Errorf("scan stdin error: %w", err)
 		}
 
+		if err := consoleProducer.Flush(); err != nil {
+			return fmt.Errorf("flush error: %w", err)
+		}
 		return nil
 	},
 }
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 0aae9e3..26acdd8 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -66,6 +66,9 @@ var simpleProducerCmd = &cobra.Command{
 			return fmt.Errorf("scan stdin error: %w", err)
 		}
 
+		if err := simpleProducer.Flush(); err != nil {
+			return fmt.Errorf("flush error: %w", err)
+		}
 		return nil
 	},
 }
diff --git a/producer.go b/producer.go
index c9aab3e..f75e5f8 100644
--- a/producer.go
+++ b/producer.go
@@ -252,6 +252,26 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 	return ErrProducerClosed
 }
 
+// Flush sends all messages to kafka, it returns the first error
+func (p *Producer) Flush() error {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return ErrProducerClosed
+	}
+
+	var err error
+	if p.currentProducer != nil {
+		err = p.currentProducer.Flush()
+	}
+	for _, sp := range p.pidToSimpleProducers {
+		if e := sp.Flush(); e != nil && err == nil {
+			err = e
+		}
+	}
+	return err
+}
+
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
 	p.lock.Lock()
-- 
2.43.0


From a735c25e3455031299b7d6e97a6a3afa91779a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:53 +0000
Subject: [PATCH 23/27] fix: group-consumer does not commit messages it has not
 printed

Messages waiting in the channel's buffer count as consumed. When the command
ended after --max-messages or on an interrupt, up to 100 were committed without
ever having been printed, and the next run skipped them.
---
 command/healer/cmd/group-consumer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index d36a182..175e834 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -71,7 +71,8 @@ var groupConsumerCmd = &cobra.Command{
 
 		defer consumer.Close()
 
-		messages, err := consumer.Consume(nil)
+		// not buffered: what has been taken out of a buffer counts as consumed, printed or not
+		messages, err := consumer.Consume(make(chan *healer.FullMessage))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From cbe45902f00877287b104f2dd9045fd53f803d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:06 +0000
Subject: [PATCH 24/27] fix: a null value is produced as null, not as an empty
 one

---
 record.go          | 6 +++++-
 simple_producer.go | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/record.go b/record.go
index 60521b5..632f3d7 100644
--- a/record.go
+++ b/record.go
@@ -76,7 +76,11 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	// Encode value
 	valueLenBuf := make([]byte, binary.MaxVarintLen64)
-	n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	if r.value == nil {
+		n = binary.PutVarint(valueLenBuf, -1)
+	} else {
+		n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	}
 	buf.Write(valueLenBuf[:n])
 	buf.Write(r.value)
 
diff --git a/simple_producer.go b/simple_producer.go
index 0c23a3b..3b71f5f 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -141,8 +141,11 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 		return ErrProducerClosed
 	}
 
-	valueCopy := make([]byte, len(value))
-	copy(valueCopy, value)
+	var valueCopy []byte
+	if value != nil {
+		valueCopy = make([]byte, len(value))
+		copy(valueCopy, value)
+	}
 
 	var keyCopy []byte
 	if key != nil {
-- 
2.43.0


From 2a411324fe4344dbcae8adc9da894050a97b35e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:39 +0000
Subject: [PATCH 25/27] fix: Client.RefreshMetadata does refresh the metadata

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 626cd7a..186b2ea 100644
--- a/client.go
+++ b/client.go
@@ -38,6 +38,9 @@ func (c *Client) Close() {
 
 // RefreshMetadata refreshes metadata for c.brokers
 func (c *Client) RefreshMetadata() {
+	if !c.brokers.refreshMetadata() {
+		c.logger.Info("failed to refresh metadata")
+	}
 }
 
 // ListGroups lists all consumer groups from all brokers
-- 
2.43.0


From efa7fffbfc100488793928d695565e5e490f3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:53 +0000
Subject: [PATCH 26/27] fix: connections are not opened again after Brokers is
 closed

---
 broker.go  | 20 +++++++++++++++++++-
 brokers.go | 26 ++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/broker.go b/broker.go
index 9aaae23..661bb5a 100644
--- a/broker.go
+++ b/broker.go
@@ -26,6 +26,8 @@ type Broker struct {
 
 	mux       sync.Mutex
 	closeLock sync.Mutex
+
+	done <-chan struct{} // the connection is not opened again after it is closed. nil if the broker belongs to no Brokers
 }
 
 var (
@@ -65,13 +67,29 @@ func (broker *Broker) getHighestAvailableAPIVersion(apiKey uint16) uint16 {
 	return 0
 }
 
+func (broker *Broker) isDone() bool {
+	select {
+	case <-broker.done:
+		return true
+	default:
+		return false
+	}
+}
+
 func (broker *Broker) createConn() error {
+	if broker.isDone() {
+		return net.ErrClosed
+	}
 	if conn, err := newConn(broker.GetAddress(), broker.config); err != nil {
 		return err
 	} else {
 		broker.closeLock.Lock()
+		defer broker.closeLock.Unlock()
+		if broker.isDone() { // closed in the meantime
+			conn.Close()
+			return net.ErrClosed
+		}
 		broker.conn = conn
-		broker.closeLock.Unlock()
 		return nil
 	}
 }
diff --git a/brokers.go b/brokers.go
index 5022d19..e608d78 100644
--- a/brokers.go
+++ b/brokers.go
@@ -5,6 +5,7 @@ package healer
 import (
 	"errors"
 	"fmt"
+	"net"
 	"strings"
 	"sync"
 	"time"
@@ -19,7 +20,7 @@ type Brokers struct {
 	controllerID int32
 	infoLock     sync.RWMutex // guards brokersInfo and controllerID
 
-	mutex sync.Locker
+	mutex sync.Mutex
 
 	closeChan chan struct{}
 }
@@ -29,6 +30,9 @@ func (brokers *Brokers) Close() {
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 
+	if brokers.closeChan == nil { // it has never been connected
+		return
+	}
 	select {
 	case <-brokers.closeChan: // already closed
 		return
@@ -96,7 +100,6 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 		config:      config,
 		brokersInfo: make(map[int32]*BrokerInfo),
 		brokers:     make(map[int32]*Broker),
-		mutex:       &sync.Mutex{},
 		closeChan:   make(chan struct{}, 0),
 	}
 
@@ -117,6 +120,7 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 	for _, brokerInfo := range metadataResponse.Brokers {
 		if broker.GetAddress() == brokerInfo.NetAddress() {
 			broker.nodeID = brokerInfo.NodeID
+			broker.done = brokers.closeChan
 			brokers.brokers[brokerInfo.NodeID] = broker
 			known = true
 		}
@@ -174,6 +178,20 @@ func (brokers *Brokers) refreshMetadataFrom(brokerAddr string) bool {
 	return true
 }
 
+// connect opens a connection, which will not be opened again after brokers is closed
+func (brokers *Brokers) connect(brokerInfo *BrokerInfo) (*Broker, error) {
+	broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
+	if err != nil {
+		return nil, err
+	}
+	broker.done = brokers.closeChan
+	if broker.isDone() {
+		broker.Close()
+		return nil, net.ErrClosed
+	}
+	return broker, nil
+}
+
 // TODO merge with GetBroker
 func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
 	if _, ok := brokers.BrokersInfo()[nodeID]; !ok {
@@ -185,7 +203,7 @@ func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
 
 	// try again after refereshing metadata
 	if brokerInfo, ok := brokers.BrokersInfo()[nodeID]; ok {
-		broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
+		broker, err := brokers.connect(brokerInfo)
 		if err == nil {
 			return broker, nil
 		}
@@ -212,7 +230,7 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 	}
 
 	if brokerInfo, ok := brokers.BrokersInfo()[nodeID]; ok {
-		broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
+		broker, err := brokers.connect(brokerInfo)
 		if err == nil {
 			brokers.brokers[nodeID] = broker
 			return broker, nil
-- 
2.43.0


From cd01e069ce2eb5b9968379a7ae1d8627c5c5fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:53 +0000
Subject: [PATCH 27/27] fix: SimpleConsumer.Stop closes the brokers it created

---
 simple_consumer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 6a47be7..a8d0d5a 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -27,6 +27,7 @@ type SimpleConsumer struct {
 
 	ctx           context.Context
 	cancel        context.CancelFunc
+	ownBrokers    bool // brokers is not used by others
 	stop          bool
 	stopLock      sync.Mutex
 	consumeLoopWg sync.WaitGroup
@@ -115,7 +116,9 @@ func NewSimpleConsumer(topic string, partitionID int32, config interface{}) (*Si
 		return nil, err
 	}
 
-	return NewSimpleConsumerWithBrokers(topic, partitionID, cfg, brokers), nil
+	c := NewSimpleConsumerWithBrokers(topic, partitionID, cfg, brokers)
+	c.ownBrokers = true
+	return c, nil
 }
 
 func (c *SimpleConsumer) refreshPartiton() error {
@@ -325,6 +328,9 @@ func (c *SimpleConsumer) Stop() {
 	if c.leaderBroker != nil {
 		c.leaderBroker.Close()
 	}
+	if c.ownBrokers {
+		c.brokers.Close()
+	}
 
 	// close(c.messages)
 
-- 
2.43.0

