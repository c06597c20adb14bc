From 50e3f45171f03258bfaf11e32d28ff47531a571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 01/50] fix: read fixed-size wire fields in full instead of
 accepting short reads

---
 pkg/binary/unmarshaler.go | 4 ++--
 pkg/protocol/msg.go       | 4 ++--
 pkg/protocol/netaddr.go   | 7 +------
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 5eac02c..7e7aebc 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -90,7 +90,7 @@ func (d Decoder) Decode(v interface{}) error {
 		}
 
 	case *[]byte:
-		if err := d.decodeArray(hashLength, *val); err != nil {
+		if err := d.decodeArray(int64(len(*val)), *val); err != nil {
 			return err
 		}
 
@@ -152,7 +152,7 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
-	if _, err := io.LimitReader(d.r, len).Read(out); err != nil {
+	if _, err := io.ReadFull(d.r, out[:len]); err != nil {
 		return err
 	}
 
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 5eed0c0..7dd144a 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -108,13 +108,13 @@ func newVarStr(str string) VarStr {
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
 	lengthBuf := make([]byte, 1)
-	if _, err := r.Read(lengthBuf); err != nil {
+	if _, err := io.ReadFull(r, lengthBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.Length = uint8(lengthBuf[0])
 
 	stringBuf := make([]byte, v.Length)
-	if _, err := r.Read(stringBuf); err != nil {
+	if _, err := io.ReadFull(r, stringBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index d57fef3..8d80c17 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -1,7 +1,6 @@
 package protocol
 
 import (
-	"errors"
 	"fmt"
 	"io"
 )
@@ -34,14 +33,10 @@ func (ip IPv4) String() string {
 // UnmarshalBinary implements the binary.Marshaler interface
 func (ip IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
-	if _, err := r.Read(data); err != nil {
+	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
 	}
 
-	if len(data) != 16 {
-		return errors.New("invalid IPv4: wrong length")
-	}
-
 	ipv4 := data[12:16]
 	copy(ip[:], ipv4)
 
-- 
2.43.0


From c4c56fd107b533754e9641149bd4dd5f40e5ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 02/50] fix: keep decoded block locators and IPv4 addresses
 instead of writing them to a copy

---
 pkg/protocol/blocklocator.go | 4 ++--
 pkg/protocol/netaddr.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index a2accce..7857539 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -44,7 +44,7 @@ func (locators BlockLocators) MarshalBinary() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
+func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 	d := binary.NewDecoder(r)
 
 	var count VarInt
@@ -67,6 +67,6 @@ func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
 		hashes[i] = hash
 	}
 
-	locators = hashes
+	*locators = hashes
 	return nil
 }
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index 8d80c17..b44d3c7 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -31,7 +31,7 @@ func (ip IPv4) String() string {
 }
 
 // UnmarshalBinary implements the binary.Marshaler interface
-func (ip IPv4) UnmarshalBinary(r io.Reader) error {
+func (ip *IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
 	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
-- 
2.43.0


From d39dd0265dce1a5c401c28427dcadf5578963917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:37 +0000
Subject: [PATCH 03/50] fix: use the hand-written encoders of varints and
 cfilters, which Marshal bypassed

---
 pkg/protocol/msg_cfilter.go | 4 ++--
 pkg/protocol/varint.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/msg_cfilter.go b/pkg/protocol/msg_cfilter.go
index afc31cf..87eff66 100644
--- a/pkg/protocol/msg_cfilter.go
+++ b/pkg/protocol/msg_cfilter.go
@@ -32,14 +32,14 @@ func NewMsgCFilter(network Magic, blockHash *chainhash.Hash, filter *gcs.Filter)
 	return NewMessage("cfilter", network, payload)
 }
 
-func (msg *MsgCFilter) MarshalBinary() ([]byte, error) {
+func (msg MsgCFilter) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	if err := buf.WriteByte(msg.FilterType); err != nil {
 		return nil, err
 	}
 
-	b, err := binary.Marshal(msg.BlockHash)
+	b, err := binary.Marshal([hashLen]byte(*msg.BlockHash))
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index f296b23..978cd94 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -82,7 +82,7 @@ func (vi VarInt) Int() (int, error) {
 	return 0, errInvalidVarIntValue
 }
 
-func (vi *VarInt) MarshalBinary() ([]byte, error) {
+func (vi VarInt) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	switch vi.Value.(type) {
-- 
2.43.0


From 6110f6f4c2beb75556618cfd735d67750009f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 04/50] fix: bound allocations sized by counts and lengths read
 from peers

---
 pkg/binary/unmarshaler.go    | 10 +++++++---
 pkg/protocol/blocklocator.go |  5 +++++
 pkg/protocol/msg_headers.go  |  9 +++++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 7e7aebc..25cc675 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -146,9 +146,13 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 		return []byte{byte(val)}, err
 	}
 
-	out := make([]byte, len)
-	err := d.decodeArray(len, out)
-	return out, err
+	// let the buffer grow with the bytes actually received, len comes from the peer
+	var out bytes.Buffer
+	if _, err := io.CopyN(&out, d.r, len); err != nil {
+		return nil, err
+	}
+
+	return out.Bytes(), nil
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index 7857539..ef61fc9 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -2,6 +2,7 @@ package protocol
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -57,6 +58,10 @@ func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
+	if numberOfBlockLocatorHashes > maxBlockLocatorsPerMsg {
+		return fmt.Errorf("too many block locator hashes: %d (max: %d)", numberOfBlockLocatorHashes, maxBlockLocatorsPerMsg)
+	}
+
 	hashes := make([][32]byte, numberOfBlockLocatorHashes)
 
 	for i := 0; i < numberOfBlockLocatorHashes; i++ {
diff --git a/pkg/protocol/msg_headers.go b/pkg/protocol/msg_headers.go
index 6bd9762..4592fb4 100644
--- a/pkg/protocol/msg_headers.go
+++ b/pkg/protocol/msg_headers.go
@@ -1,12 +1,17 @@
 package protocol
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 )
 
+const (
+	maxHeadersPerMsg = 2000
+)
+
 type MsgHeaders struct {
 	Headers []*block.Header
 }
@@ -26,6 +31,10 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
+	if numberOfHeaders > maxHeadersPerMsg {
+		return fmt.Errorf("too many headers in headers message: %d (max: %d)", numberOfHeaders, maxHeadersPerMsg)
+	}
+
 	headersBytes, err := d.ReadUntilEOF()
 	if err != nil {
 		return err
-- 
2.43.0


From f0af89218e9201e8a59b39b89c4784528895b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 05/50] fix: encode inventory counts and string lengths as
 varints

---
 pkg/protocol/msg.go         | 23 +++++++++++++++++------
 pkg/protocol/msg_getdata.go |  2 +-
 pkg/protocol/msg_inv.go     |  9 +++++++--
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 7dd144a..3ab42a0 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -14,6 +14,9 @@ const (
 	nodeNetwork    = 1
 	magicLength    = 4
 
+	// maxVarStrLength is the longest string accepted in a message, user agents are limited to 256 bytes
+	maxVarStrLength = 256
+
 	// MsgHeaderLength specifies the length of Message in bytes
 	MsgHeaderLength = magicLength + commandLength + checksumLength + 4 // 4 - payload length value
 )
@@ -94,26 +97,34 @@ func (mh MessageHeader) HasValidMagic() bool {
 
 // VarStr ...
 type VarStr struct {
-	Length uint8
+	Length VarInt
 	String string
 }
 
 func newVarStr(str string) VarStr {
 	return VarStr{
-		Length: uint8(len(str)), // TODO: implement var_int
+		Length: newFromInt(len(str)),
 		String: str,
 	}
 }
 
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
-	lengthBuf := make([]byte, 1)
-	if _, err := io.ReadFull(r, lengthBuf); err != nil {
+	d := binary.NewDecoder(r)
+	if err := d.Decode(&v.Length); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
-	v.Length = uint8(lengthBuf[0])
 
-	stringBuf := make([]byte, v.Length)
+	length, err := v.Length.Int()
+	if err != nil {
+		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
+	}
+
+	if length > maxVarStrLength {
+		return fmt.Errorf("varStr.UnmarshalBinary: string too long: %d (max: %d)", length, maxVarStrLength)
+	}
+
+	stringBuf := make([]byte, length)
 	if _, err := io.ReadFull(r, stringBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
diff --git a/pkg/protocol/msg_getdata.go b/pkg/protocol/msg_getdata.go
index 06b9834..6ca244b 100644
--- a/pkg/protocol/msg_getdata.go
+++ b/pkg/protocol/msg_getdata.go
@@ -8,7 +8,7 @@ import (
 
 // MsgGetData represents 'getdata' message.
 type MsgGetData struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
diff --git a/pkg/protocol/msg_inv.go b/pkg/protocol/msg_inv.go
index d85e6e1..70ed012 100644
--- a/pkg/protocol/msg_inv.go
+++ b/pkg/protocol/msg_inv.go
@@ -16,7 +16,7 @@ const (
 
 // MsgInv represents 'inv' message.
 type MsgInv struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
@@ -28,7 +28,12 @@ func (inv *MsgInv) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	for i := uint8(0); i < inv.Count; i++ {
+	count, err := inv.Count.Int()
+	if err != nil {
+		return err
+	}
+
+	for i := 0; i < count; i++ {
 		var v InvVector
 
 		if err := d.Decode(&v); err != nil {
-- 
2.43.0


From 5b070a7114d02ed6dcfe98ffd5de21e815e9d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:44 +0000
Subject: [PATCH 06/50] fix: share one node between Start, Stop and the
 handlers instead of copying it

---
 pkg/node/cmd_block.go       | 2 +-
 pkg/node/cmd_cfilter.go     | 2 +-
 pkg/node/cmd_getcfilters.go | 2 +-
 pkg/node/cmd_getheaders.go  | 2 +-
 pkg/node/cmd_headers.go     | 2 +-
 pkg/node/cmd_inv.go         | 2 +-
 pkg/node/cmd_ping.go        | 2 +-
 pkg/node/cmd_pong.go        | 2 +-
 pkg/node/cmd_sendcmpct.go   | 2 +-
 pkg/node/cmd_skip.go        | 2 +-
 pkg/node/cmd_tx.go          | 2 +-
 pkg/node/cmd_verack.go      | 2 +-
 pkg/node/cmd_version.go     | 2 +-
 pkg/node/node.go            | 7 +++----
 14 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 21cf16c..44cd38e 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 1a27c2c..04df700 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 105506c..ebafe7b 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,7 +13,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index 096664c..cfa7752 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 6bb9c91..d1207b1 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,7 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index f44e0dd..cb7e82f 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index d2e7dfd..ffd8f72 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 62e3c58..89fe26e 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index fb07790..8fa10fd 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 98e3be7..89182d7 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,7 +10,7 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 8b51438..800a425 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 47e353e..3d43dfb 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -5,6 +5,6 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 0c48ac4..d025789 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,7 +10,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 0463eae..2f9a975 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -89,14 +89,14 @@ func New(config NodeConfig) (NodeService, error) {
 	}, nil
 }
 
-func (n node) GetChainTip() (*block.Header, error) {
+func (n *node) GetChainTip() (*block.Header, error) {
 	return n.blockHeadersDb.ChainTip(context.Background())
 }
 
 // AddOutboundPeer sends a new version message to a new peer
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
-func (n node) AddOutboundPeer(outbound peer.Peer) error {
+func (n *node) AddOutboundPeer(outbound peer.Peer) error {
 	if _, ok := n.Peers[outbound.ID()]; ok {
 		return fmt.Errorf("peer already known by node")
 	}
@@ -117,8 +117,7 @@ func (n node) AddOutboundPeer(outbound peer.Peer) error {
 }
 
 // Start starts a node and add an initial outbound peer.
-func (n node) Start(initialOutboundPeerAddr string) error {
-	n.quit = make(chan struct{})
+func (n *node) Start(initialOutboundPeerAddr string) error {
 	initialPeer, err := peer.NewElementsPeer(initialOutboundPeerAddr)
 	if err != nil {
 		return err
-- 
2.43.0


From cb2da0eaba39e64a9a6edec8660bfbf5efb069e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 07/50] fix: read whole messages and drop those of other
 networks or with a bad checksum

---
 pkg/node/cmd_block.go       |  5 ++-
 pkg/node/cmd_cfilter.go     |  5 ++-
 pkg/node/cmd_getcfilters.go |  5 ++-
 pkg/node/cmd_getheaders.go  |  5 ++-
 pkg/node/cmd_headers.go     |  7 ++--
 pkg/node/cmd_inv.go         |  5 ++-
 pkg/node/cmd_ping.go        |  5 ++-
 pkg/node/cmd_pong.go        |  5 ++-
 pkg/node/cmd_sendcmpct.go   |  5 ++-
 pkg/node/cmd_skip.go        | 13 +------
 pkg/node/cmd_tx.go          |  5 ++-
 pkg/node/cmd_verack.go      |  5 +--
 pkg/node/cmd_version.go     |  5 ++-
 pkg/node/node.go            | 68 ++++++++++++++++++++++++-------------
 pkg/protocol/msg.go         | 12 +++++++
 15 files changed, 83 insertions(+), 72 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 44cd38e..b39ecf3 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleBlock(payload io.Reader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
@@ -19,8 +19,7 @@ func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 		return err
 	}
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&msgBlock); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&msgBlock); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 04df700..90d24f2 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleCFilter(payload io.Reader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&cfilter); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&cfilter); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index ebafe7b..346376c 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,10 +13,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n *node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetCFilters(payload io.Reader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getCFilters); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index cfa7752..7c9aa67 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetHeaders(payload io.Reader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getHeaders); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index d1207b1..e124e26 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,13 +12,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleHeaders(payload io.Reader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
-	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(msgHeader.Length))
-
-	if err := binary.NewDecoder(lr).Decode(&headers); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&headers); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index cb7e82f..bbdd299 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleInv(payload io.Reader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&inv); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&inv); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index ffd8f72..12d0986 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePing(payload io.Reader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&ping); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&ping); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 89fe26e..e5423a8 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePong(payload io.Reader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&pong); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&pong); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index 8fa10fd..c40df1c 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleSendCmpct(payload io.Reader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&sendCmpct); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 89182d7..ebc0c36 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -1,22 +1,11 @@
 package node
 
 import (
-	"io"
-
 	"github.com/sirupsen/logrus"
-	"github.com/vulpemventures/neutrino-elements/pkg/binary"
-	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n *node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) skipMessage(header *protocol.MessageHeader) {
 	logrus.Debugf("skipping message: %s", header.Command)
-
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if _, err := binary.NewDecoder(lr).ReadUntilEOF(); err != nil {
-		return err
-	}
-
-	return nil
 }
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 800a425..558c0c6 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,11 +9,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleTx(payload io.Reader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&tx); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&tx); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 3d43dfb..db039a5 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -1,10 +1,11 @@
 package node
 
 import (
+	"io"
+
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
-	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVerack(payload io.Reader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index d025789..9092598 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,12 +10,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVersion(payload io.Reader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&version); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&version); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 2f9a975..cc8fb34 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -169,102 +169,124 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 		}
 	}()
 
-	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
 Loop:
 	for {
-		nn, err := conn.Read(tmp)
+		msgHeader, payloadBytes, err := n.readMessage(conn)
 		if err != nil {
 			logrus.Errorf(err.Error())
 			n.DisconCh <- p.ID()
 			break Loop
 		}
 
-		var msgHeader protocol.MessageHeader
-		if err := binary.NewDecoder(bytes.NewReader(tmp[:nn])).Decode(&msgHeader); err != nil {
-			logrus.Debugf("decoding header failed: %+v", err)
+		if err := msgHeader.Validate(); err != nil {
+			logrus.Debugf("validate header failed: %+v", err)
 			continue
 		}
 
-		if err := msgHeader.Validate(); err != nil {
-			logrus.Debugf("validate header failed: %+v", err)
+		if err := msgHeader.ValidatePayload(payloadBytes); err != nil {
+			logrus.Debugf("validate payload failed: %+v", err)
 			continue
 		}
 
+		payload := bytes.NewReader(payloadBytes)
+
 		logrus.Debugf("received message: %s", msgHeader.Command)
 
 		switch msgHeader.CommandString() {
 		case "version":
-			if err := n.handleVersion(&msgHeader, p); err != nil {
+			if err := n.handleVersion(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'version': %+v", err)
 				continue
 			}
 		case "verack":
-			if err := n.handleVerack(&msgHeader, p); err != nil {
+			if err := n.handleVerack(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'verack': %+v", err)
 				continue
 			}
 		case "ping":
-			if err := n.handlePing(&msgHeader, p); err != nil {
+			if err := n.handlePing(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'ping': %+v", err)
 				continue
 			}
 		case "pong":
-			if err := n.handlePong(&msgHeader, p); err != nil {
+			if err := n.handlePong(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'pong': %+v", err)
 				continue
 			}
 		case "inv":
-			if err := n.handleInv(&msgHeader, p); err != nil {
+			if err := n.handleInv(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'inv': %+v", err)
 				continue
 			}
 		case "tx":
-			if err := n.handleTx(&msgHeader, p); err != nil {
+			if err := n.handleTx(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'tx': %+v", err)
 				continue
 			}
 		case "block":
-			if err := n.handleBlock(&msgHeader, p); err != nil {
+			if err := n.handleBlock(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'block': %+v", err)
 				continue
 			}
 		case "sendcmpct":
-			if err := n.handleSendCmpct(&msgHeader, p); err != nil {
+			if err := n.handleSendCmpct(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'sendcmpct': %+v", err)
 				continue
 			}
 		case "getheaders":
-			if err := n.handleGetHeaders(&msgHeader, p); err != nil {
+			if err := n.handleGetHeaders(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'getheaders': %+v", err)
 				continue
 			}
 		case "headers":
-			if err := n.handleHeaders(&msgHeader, p); err != nil {
+			if err := n.handleHeaders(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'headers': %+v", err)
 				continue
 			}
 		case "cfilter":
-			if err := n.handleCFilter(&msgHeader, p); err != nil {
+			if err := n.handleCFilter(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'cfilter': %+v", err)
 				continue
 			}
 		case "getcfilters":
-			if err := n.handleGetCFilters(&msgHeader, p); err != nil {
+			if err := n.handleGetCFilters(payload, p); err != nil {
 				logrus.Errorf("failed to handle 'getcfilters': %+v", err)
 				continue
 			}
 		default:
-			if err := n.skipMessage(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to skip message: %+v", err)
-				continue
-			}
+			n.skipMessage(msgHeader)
 		}
 
 	}
 }
 
+// readMessage reads the next message of the node's network, header and whole
+// payload, so that the stream is left at the start of the following message.
+// The stream can't be trusted anymore if an error is returned.
+func (n *node) readMessage(conn io.Reader) (*protocol.MessageHeader, []byte, error) {
+	var msgHeader protocol.MessageHeader
+	if err := binary.NewDecoder(conn).Decode(&msgHeader); err != nil {
+		return nil, nil, err
+	}
+
+	if msgHeader.Magic != n.Network {
+		return nil, nil, fmt.Errorf("message of another network, magic: %x", msgHeader.Magic)
+	}
+
+	if msgHeader.Length > protocol.MaxPayloadLength {
+		return nil, nil, fmt.Errorf("message payload too long: %d", msgHeader.Length)
+	}
+
+	payload := make([]byte, msgHeader.Length)
+	if _, err := io.ReadFull(conn, payload); err != nil {
+		return nil, nil, err
+	}
+
+	return &msgHeader, payload, nil
+}
+
 // Returns the services (as serviceFlag) supported by the node.
 func (n *node) getServicesFlag() protocol.ServiceFlag {
 	return protocol.SFNodeCF
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 3ab42a0..2d3019b 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -19,6 +19,9 @@ const (
 
 	// MsgHeaderLength specifies the length of Message in bytes
 	MsgHeaderLength = magicLength + commandLength + checksumLength + 4 // 4 - payload length value
+
+	// MaxPayloadLength is the longest payload accepted from a peer, in bytes
+	MaxPayloadLength = 32 * 1024 * 1024
 )
 
 // MessageHeader ...
@@ -77,6 +80,15 @@ func (mh MessageHeader) Validate() error {
 	return nil
 }
 
+// ValidatePayload returns an error if the payload is not the one announced by the header.
+func (mh MessageHeader) ValidatePayload(payload []byte) error {
+	if checksum(payload) != mh.Checksum {
+		return fmt.Errorf("invalid checksum: %x", mh.Checksum)
+	}
+
+	return nil
+}
+
 // HasValidCommand returns true if the message header contains a supported command.
 // Returns false otherwise.
 func (mh MessageHeader) HasValidCommand() bool {
-- 
2.43.0


From 42de2a6eadb349a2ce443522cbcf2e40cef082bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 08/50] fix: guard the node's peer table, which several
 goroutines read and write

---
 pkg/node/chainsync.go   | 14 +++++-----
 pkg/node/handle_ping.go | 13 ++++++---
 pkg/node/node.go        | 61 ++++++++++++++++++++++++++++++++++-------
 3 files changed, 67 insertions(+), 21 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index bef86ef..0317654 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -58,7 +58,7 @@ func (n *node) getGenesisBlockHash() (*chainhash.Hash, error) {
 func (n *node) syncWithPeer(peerID peer.PeerID) error {
 	log.Infof("node: syncing block headers with peer: %s ...", peerID)
 
-	p := n.Peers[peerID]
+	p := n.getPeer(peerID)
 
 	if p == nil {
 		return fmt.Errorf("peer %s not found", peerID)
@@ -106,12 +106,12 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 
 func (n *node) sync(p peer.Peer) {
 	if p == nil {
-		for _, bestPeer := range n.Peers {
-			if bestPeer != nil {
-				p = bestPeer
-				break
-			}
-		}
+		p = n.getBestPeerForSync()
+	}
+
+	if p == nil {
+		log.Warn("node: no peer to sync block headers with")
+		return
 	}
 
 	if err := n.syncWithPeer(p.ID()); err != nil {
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index d421fe4..7d2fd26 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -16,6 +16,9 @@ type peerPing struct {
 }
 
 func (n *node) addPeer(peer peer.Peer) error {
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
 	if _, found := n.Peers[peer.ID()]; found {
 		return fmt.Errorf("peer already known: %s", peer.ID())
 	}
@@ -44,12 +47,12 @@ func (n *node) monitorPeers() {
 			if peerID == "" {
 				break
 			}
-			p := n.Peers[peerID]
-			if p == nil {
+			pongCh := n.getPeerPongCh(peerID)
+			if pongCh == nil {
 				break
 			}
 
-			n.peersPongCh[peerID] <- nonce
+			pongCh <- nonce
 			delete(peerPings, nonce)
 
 		case pp := <-n.pingsCh:
@@ -70,6 +73,8 @@ func (n *node) monitorPeers() {
 
 // monitors the pings/pongs for a peer
 func (n *node) monitorPeer(peer peer.Peer) {
+	pongCh := n.getPeerPongCh(peer.ID())
+
 	ticker := time.NewTicker(pingIntervalSec * time.Second)
 	defer ticker.Stop()
 
@@ -103,7 +108,7 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-			case pn := <-n.peersPongCh[peer.ID()]:
+			case pn := <-pongCh:
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
 					n.DisconCh <- peer.ID()
diff --git a/pkg/node/node.go b/pkg/node/node.go
index cc8fb34..be03775 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -37,6 +37,8 @@ type node struct {
 	pingsCh     chan peerPing
 	pongsCh     chan uint64
 	peersPongCh map[peer.PeerID]chan uint64
+	// peersMutex protects Peers and peersPongCh
+	peersMutex sync.RWMutex
 
 	DisconCh  chan peer.PeerID
 	UserAgent string
@@ -97,7 +99,7 @@ func (n *node) GetChainTip() (*block.Header, error) {
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
 func (n *node) AddOutboundPeer(outbound peer.Peer) error {
-	if _, ok := n.Peers[outbound.ID()]; ok {
+	if n.getPeer(outbound.ID()) != nil {
 		return fmt.Errorf("peer already known by node")
 	}
 
@@ -149,9 +151,8 @@ func (n *node) Stop() error {
 // Return the best peer (now randomly)
 // TODO : implement a better way to select the best peer (eg. by latency)
 func (n *node) getBestPeerForSync() peer.Peer {
-	if len(n.Peers) == 0 {
-		return nil
-	}
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
 
 	for _, p := range n.Peers {
 		return p
@@ -160,6 +161,48 @@ func (n *node) getBestPeerForSync() peer.Peer {
 	return nil
 }
 
+// getPeer returns the connected peer with the given ID, nil if there is none.
+func (n *node) getPeer(peerID peer.PeerID) peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	return n.Peers[peerID]
+}
+
+// getPeers returns all the connected peers.
+func (n *node) getPeers() []peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	peers := make([]peer.Peer, 0, len(n.Peers))
+	for _, p := range n.Peers {
+		peers = append(peers, p)
+	}
+
+	return peers
+}
+
+// getPeerPongCh returns the channel used to forward the pongs of the peer, nil
+// if the peer is not connected.
+func (n *node) getPeerPongCh(peerID peer.PeerID) chan uint64 {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	return n.peersPongCh[peerID]
+}
+
+// removePeer forgets the peer and returns it, nil if the peer is not connected.
+func (n *node) removePeer(peerID peer.PeerID) peer.Peer {
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
+	p := n.Peers[peerID]
+	delete(n.Peers, peerID)
+	delete(n.peersPongCh, peerID)
+
+	return p
+}
+
 // handlePeerMessages handles messages coming from peers.
 func (n *node) handlePeerMessages(p peer.Peer) {
 	defer func() {
@@ -322,13 +365,12 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 func (n *node) disconnectPeer(peerID peer.PeerID) {
 	logrus.Debugf("disconnecting peer %s", peerID)
 
-	peer := n.Peers[peerID]
+	peer := n.removePeer(peerID)
 	if peer == nil {
 		return
 	}
 
 	peer.Connection().Close()
-	delete(n.Peers, peerID)
 }
 
 // monitorBlockHeaders monitors new block headers coming from peers.
@@ -346,7 +388,7 @@ func (n *node) monitorBlockHeaders() {
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-			if len(n.Peers) > 0 {
+			if bestPeer := n.getBestPeerForSync(); bestPeer != nil {
 				hash, err := newHeader.Hash()
 				if err != nil {
 					logrus.Error(err)
@@ -365,8 +407,7 @@ func (n *node) monitorBlockHeaders() {
 					continue
 				}
 
-				conn := n.getBestPeerForSync().Connection()
-				err = n.sendMessage(conn, msg)
+				err = n.sendMessage(bestPeer.Connection(), msg)
 				if err != nil {
 					logrus.Error(err)
 					continue
@@ -412,7 +453,7 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
-	for _, peer := range n.Peers {
+	for _, peer := range n.getPeers() {
 		err = n.sendMessage(peer.Connection(), msg)
 		if err != nil {
 			return err
-- 
2.43.0


From 9f739d4a74d6ec8afee359c60e65388c2f80ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 09/50] fix: register pings before sending them and never block
 on forwarding a late pong

---
 pkg/node/handle_ping.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index 7d2fd26..31d3e86 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -25,7 +25,9 @@ func (n *node) addPeer(peer peer.Peer) error {
 
 	id := peer.ID()
 	n.Peers[id] = peer
-	n.peersPongCh[id] = make(chan uint64)
+	// at most one pong per peer is waited for: the buffer lets monitorPeers forward
+	// a pong that comes after monitorPeer gave up without blocking
+	n.peersPongCh[id] = make(chan uint64, 1)
 
 	if len(n.Peers) == 1 {
 		logrus.Infof("node: start sync block headers with peer: %s", peer.ID())
@@ -94,17 +96,19 @@ func (n *node) monitorPeer(peer peer.Peer) {
 				logrus.Fatalf("monitorPeer, binary.Marshal: %v", err)
 			}
 
-			if _, err := peer.Connection().Write(msg); err != nil {
-				n.disconnectPeer(peer.ID())
-			}
-
-			logrus.Debugf("sent 'ping' to %s", peer)
-
+			// register the ping before sending it, so that its pong is never unknown
 			n.pingsCh <- peerPing{
 				nonce:  nonce,
 				peerID: peer.ID(),
 			}
 
+			if _, err := peer.Connection().Write(msg); err != nil {
+				n.DisconCh <- peer.ID()
+				return
+			}
+
+			logrus.Debugf("sent 'ping' to %s", peer)
+
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-- 
2.43.0


From a7e249a51876411adb23542f74a8826e8b758dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 10/50] fix: let every hand-off between the node's goroutines
 end when the node is stopped

---
 pkg/node/chainsync.go   | 12 ++++++++++--
 pkg/node/cmd_block.go   |  7 ++++++-
 pkg/node/cmd_cfilter.go |  5 ++++-
 pkg/node/cmd_headers.go |  6 +++++-
 pkg/node/cmd_pong.go    |  5 ++++-
 pkg/node/handle_ping.go | 29 ++++++++++++++++++++++++-----
 pkg/node/node.go        | 24 ++++++++++++++++++------
 7 files changed, 71 insertions(+), 17 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index 0317654..362d3d1 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -100,7 +100,12 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 			n.notifySynced()
 			return
 		}
-		time.Sleep(time.Second * 1)
+
+		select {
+		case <-n.quit:
+			return
+		case <-time.After(time.Second * 1):
+		}
 	}
 }
 
@@ -124,7 +129,10 @@ func (n *node) notifySynced() {
 	n.notifySyncedOnce.Do(
 		func() {
 			log.Debugf("node: syncing block headers finished")
-			n.syncedChan <- struct{}{}
+			select {
+			case n.syncedChan <- struct{}{}:
+			case <-n.quit:
+			}
 		},
 	)
 }
diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index b39ecf3..39e4aca 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -50,7 +50,12 @@ func (n *node) handleBlock(payload io.Reader, p peer.Peer) error {
 
 		return nil
 	}
-	n.blockHeadersCh <- *msgBlock.Header
+
+	select {
+	case n.blockHeadersCh <- *msgBlock.Header:
+	case <-n.quit:
+		return nil
+	}
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
 	return nil
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 90d24f2..e7b831f 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -16,7 +16,10 @@ func (n *node) handleCFilter(payload io.Reader, p peer.Peer) error {
 	}
 
 	// send the cfilter to the chan
-	n.compactFiltersCh <- cfilter
+	select {
+	case n.compactFiltersCh <- cfilter:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index e124e26..2176975 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -72,7 +72,11 @@ func (n *node) handleHeaders(payload io.Reader, p peer.Peer) error {
 
 	if len(headers.Headers) > 0 {
 		for _, v := range headers.Headers {
-			n.blockHeadersCh <- *v
+			select {
+			case n.blockHeadersCh <- *v:
+			case <-n.quit:
+				return nil
+			}
 		}
 
 		log.Debugf("node: local tip: %v", headers.Headers[len(headers.Headers)-1].Height)
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index e5423a8..0184524 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -15,7 +15,10 @@ func (n *node) handlePong(payload io.Reader, p peer.Peer) error {
 		return err
 	}
 
-	n.pongsCh <- pong.Nonce
+	select {
+	case n.pongsCh <- pong.Nonce:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index 31d3e86..66dc2c0 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -37,6 +37,14 @@ func (n *node) addPeer(peer peer.Peer) error {
 	return nil
 }
 
+// notifyDisconnected asks monitorPeers to forget the peer, unless the node is stopped.
+func (n *node) notifyDisconnected(peerID peer.PeerID) {
+	select {
+	case n.DisconCh <- peerID:
+	case <-n.quit:
+	}
+}
+
 func (n *node) monitorPeers() {
 	peerPings := make(map[uint64]peer.PeerID)
 
@@ -54,7 +62,11 @@ func (n *node) monitorPeers() {
 				break
 			}
 
-			pongCh <- nonce
+			select {
+			case pongCh <- nonce:
+			case <-n.quit:
+				return
+			}
 			delete(peerPings, nonce)
 
 		case pp := <-n.pingsCh:
@@ -97,13 +109,17 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			}
 
 			// register the ping before sending it, so that its pong is never unknown
-			n.pingsCh <- peerPing{
+			select {
+			case n.pingsCh <- peerPing{
 				nonce:  nonce,
 				peerID: peer.ID(),
+			}:
+			case <-n.quit:
+				return
 			}
 
 			if _, err := peer.Connection().Write(msg); err != nil {
-				n.DisconCh <- peer.ID()
+				n.notifyDisconnected(peer.ID())
 				return
 			}
 
@@ -115,12 +131,15 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			case pn := <-pongCh:
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
-					n.DisconCh <- peer.ID()
+					n.notifyDisconnected(peer.ID())
 					return
 				}
 				logrus.Debugf("got 'pong' from %s", peer)
+			case <-n.quit:
+				t.Stop()
+				return
 			case <-t.C:
-				n.DisconCh <- peer.ID()
+				n.notifyDisconnected(peer.ID())
 				return
 			}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index be03775..7ef89a1 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"github.com/sirupsen/logrus"
 	log "github.com/sirupsen/logrus"
@@ -54,6 +55,7 @@ type node struct {
 	syncedChan chan struct{}
 
 	notifySyncedOnce sync.Once
+	stopOnce         sync.Once
 }
 
 var _ NodeService = (*node)(nil)
@@ -137,14 +139,24 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 
 	n.memPool.Start()
 
-	<-n.syncedChan
-
-	return nil
+	select {
+	case <-n.syncedChan:
+		return nil
+	case <-n.quit:
+		return errors.New("node stopped before being synced")
+	}
 }
 
 func (n *node) Stop() error {
-	n.memPool.Stop()
-	close(n.quit)
+	n.stopOnce.Do(func() {
+		close(n.quit)
+		n.memPool.Stop()
+
+		for _, p := range n.getPeers() {
+			n.disconnectPeer(p.ID())
+		}
+	})
+
 	return nil
 }
 
@@ -219,7 +231,7 @@ Loop:
 		msgHeader, payloadBytes, err := n.readMessage(conn)
 		if err != nil {
 			logrus.Errorf(err.Error())
-			n.DisconCh <- p.ID()
+			n.notifyDisconnected(p.ID())
 			break Loop
 		}
 
-- 
2.43.0


From 01d7052af1f1a9f82fa63d59b4bbb8875c3e5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 11/50] fix: look up confirmed transactions in a snapshot of
 the mempool taken under its lock

---
 pkg/node/mempool.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 92411d9..da388b2 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -141,11 +141,12 @@ func (m *MemPool) CheckTxConfirmed(block block.Block) {
 
 func (m *MemPool) checkTxConfirmed(block block.Block) {
 	//TODO: check if this is the best way to do this
-	for _, v := range m.txs {
+	for txID := range m.GetMemPool() {
 		for _, tx := range block.TransactionsData.Transactions {
-			if tx.TxHash().String() == v.tx.TxHash().String() {
-				if err := m.removeTxFromMemPool(v.tx.TxHash().String()); err != nil {
+			if tx.TxHash().String() == txID {
+				if err := m.removeTxFromMemPool(txID); err != nil {
 					log.Errorln("failed to remove tx from memPool")
+					continue
 				}
 
 				m.notifySubscribers(TxConfirmedEvent{
-- 
2.43.0


From 3439e751b98c1aa63e2f3f1f16798eafb9b01fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 12/50] fix: stop the mempool without closing channels that
 still have senders

---
 pkg/node/mempool.go | 67 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index da388b2..793a30a 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -31,6 +31,10 @@ type MemPool struct {
 	txSubscribersMutex *sync.RWMutex
 	//txSubscribers is a list of subscribers listening for new transactions
 	txSubscribers []txSubscriber
+	//stopped is true once Stop is called, protected by txSubscribersMutex
+	stopped bool
+	//notifiers are the running notifications, none is started once stopped
+	notifiers *sync.WaitGroup
 }
 
 func NewMemPool() MemPool {
@@ -40,6 +44,7 @@ func NewMemPool() MemPool {
 		quitChan:           make(chan struct{}),
 		txsMutex:           new(sync.RWMutex),
 		txSubscribersMutex: new(sync.RWMutex),
+		notifiers:          new(sync.WaitGroup),
 	}
 }
 
@@ -92,9 +97,19 @@ func (m *MemPool) Start() {
 }
 
 func (m *MemPool) Stop() {
-	close(m.txChan)
+	m.txSubscribersMutex.Lock()
+	if m.stopped {
+		m.txSubscribersMutex.Unlock()
+		return
+	}
+	m.stopped = true
+	subs := m.txSubscribers
+	m.txSubscribersMutex.Unlock()
+
 	close(m.quitChan)
-	subs := m.getSubscribersSafe()
+
+	//nobody is sending anymore once the running notifications are done
+	m.notifiers.Wait()
 	for _, v := range subs {
 		close(v.txEvent)
 	}
@@ -113,13 +128,21 @@ func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 }
 
 func (m *MemPool) AddTx(tx protocol.MsgTx) {
-	m.txChan <- tx
+	select {
+	case m.txChan <- tx:
+	case <-m.quitChan:
+	}
 }
 
 func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	m.txSubscribersMutex.Lock()
 	defer m.txSubscribersMutex.Unlock()
 	txEvent := make(chan TxEvent)
+	if m.stopped {
+		close(txEvent)
+		return txEvent
+	}
+
 	m.txSubscribers = append(m.txSubscribers, txSubscriber{
 		id:      id,
 		txEvent: txEvent,
@@ -128,13 +151,6 @@ func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	return txEvent
 }
 
-func (m *MemPool) getSubscribersSafe() []txSubscriber {
-	m.txSubscribersMutex.RLock()
-	defer m.txSubscribersMutex.RUnlock()
-
-	return m.txSubscribers
-}
-
 func (m *MemPool) CheckTxConfirmed(block block.Block) {
 	go m.checkTxConfirmed(block)
 }
@@ -181,7 +197,15 @@ func (m *MemPool) addTx(txID string, txData txData) {
 func (m *MemPool) listenForNewTxs() {
 	log.Debugln("mem-pool: listening for new transactions")
 
-	for tx := range m.txChan {
+	for {
+		var tx protocol.MsgTx
+		select {
+		case tx = <-m.txChan:
+		case <-m.quitChan:
+			log.Debugln("mem-pool: memPool listener stopped")
+			return
+		}
+
 		m.addTx(
 			tx.HashStr(),
 			txData{
@@ -197,16 +221,27 @@ func (m *MemPool) listenForNewTxs() {
 
 		log.Debugf("tx %s added to memPool", tx.HashStr())
 	}
-
-	log.Debugln("mem-pool: memPool listener stopped")
 }
 
 func (m *MemPool) notifySubscribers(txEvent TxEvent) {
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+	m.txSubscribersMutex.RLock()
+	defer m.txSubscribersMutex.RUnlock()
+
+	if m.stopped {
+		return
+	}
+
+	for _, v := range m.txSubscribers {
+		m.notifiers.Add(1)
 		go func(subscriber txSubscriber) {
+			defer m.notifiers.Done()
+
 			log.Debugf("notifying subscriber %s of new tx started", subscriber.id)
-			subscriber.txEvent <- txEvent
+			select {
+			case subscriber.txEvent <- txEvent:
+			case <-m.quitChan:
+				return
+			}
 			log.Debugf("notifying subscriber %s of new tx done", subscriber.id)
 		}(v)
 	}
-- 
2.43.0


From 669dc483eef9e57b0ef32e33f6ae3b5b7da07c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 13/50] fix: do not store the tip again when a headers message
 starts with it

---
 pkg/node/cmd_headers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 2176975..ad3c9c4 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -55,9 +55,9 @@ func (n *node) handleHeaders(payload io.Reader, p peer.Peer) error {
 		return nil
 	}
 
-	//in case received headers portion has first header block height less than tip
+	//in case received headers portion does not start right after the tip
 	//check if there are other received headers that are continuation of the tip in sequence
-	if firstHeaderBlockHeight < tip.Height && lastHeaderBlockHeight > tip.Height {
+	if firstHeaderBlockHeight <= tip.Height && lastHeaderBlockHeight > tip.Height {
 		newHeaders := make([]*block.Header, 0)
 		for _, header := range headers.Headers {
 			if header.Height > tip.Height {
-- 
2.43.0


From 76beb44dbdbff77255de61d89cf8ad3301b7b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 14/50] fix: answer getcfilters with the filter of the start
 block too

---
 pkg/node/cmd_getcfilters.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 346376c..6d45c07 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -41,7 +41,10 @@ func (n *node) handleGetCFilters(payload io.Reader, p peer.Peer) error {
 		return fmt.Errorf("end height is too far away from start height")
 	}
 
-	for height := endBlockHeader.Height; height > getCFilters.StartHeight; height-- {
+	// start and stop blocks are both included
+	for i := uint32(0); i <= endBlockHeader.Height-getCFilters.StartHeight; i++ {
+		height := getCFilters.StartHeight + i
+
 		blockHash, err := n.blockHeadersDb.GetBlockHashByHeight(context.Background(), height)
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From 9841af4629e78a8f0b91d0619f70ee0a1fc192e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 15/50] fix: wake the scanner reliably on new requests and on
 Stop

---
 pkg/scanner/requestqueue.go | 34 +++++++++++++++---
 pkg/scanner/scanner.go      | 70 +++++++++++++++++++++----------------
 2 files changed, 68 insertions(+), 36 deletions(-)

diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 7e014c0..d1f3e98 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -7,15 +7,17 @@ import (
 type scanRequestQueue struct {
 	requests []*ScanRequest
 	locker   sync.Locker
-	cond     sync.Cond
+	// cond is signaled, with locker held, on new requests and when the scanner stops
+	cond *sync.Cond
 }
 
 func newScanRequestQueue() *scanRequestQueue {
+	locker := new(sync.Mutex)
 
 	return &scanRequestQueue{
 		requests: make([]*ScanRequest, 0),
-		locker:   new(sync.Mutex),
-		cond:     sync.Cond{L: &sync.Mutex{}},
+		locker:   locker,
+		cond:     sync.NewCond(locker),
 	}
 }
 
@@ -56,9 +58,31 @@ func (queue *scanRequestQueue) peek() *ScanRequest {
 	return queue.requests[0]
 }
 
-func (queue *scanRequestQueue) isEmpty() bool {
+// waitForRequests blocks until the queue has requests, it returns false if
+// quitCh is closed meanwhile.
+func (queue *scanRequestQueue) waitForRequests(quitCh <-chan struct{}) bool {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 
-	return len(queue.requests) == 0
+	for {
+		select {
+		case <-quitCh:
+			return false
+		default:
+		}
+
+		if len(queue.requests) > 0 {
+			return true
+		}
+
+		queue.cond.Wait()
+	}
+}
+
+// wakeUp makes waitForRequests check again if it should quit.
+func (queue *scanRequestQueue) wakeUp() {
+	queue.locker.Lock()
+	defer queue.locker.Unlock()
+
+	queue.cond.Broadcast()
 }
diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index d0a321c..a957d1b 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -3,6 +3,8 @@ package scanner
 import (
 	"context"
 	"fmt"
+	"sync"
+
 	"github.com/google/uuid"
 
 	"github.com/vulpemventures/go-elements/descriptor"
@@ -57,6 +59,7 @@ type Service interface {
 
 type scannerService struct {
 	started       bool
+	startedLocker sync.Mutex // protects started and quitCh
 	requestsQueue *scanRequestQueue
 	filterDB      repository.FilterRepository
 	headerDB      repository.BlockHeaderRepository
@@ -86,14 +89,17 @@ func New(
 func (s *scannerService) Start() (<-chan Report, error) {
 	log.Debugln("scanner: starting scanner ...")
 
+	s.startedLocker.Lock()
+	defer s.startedLocker.Unlock()
+
 	if s.started {
 		return nil, fmt.Errorf("scanner already started")
 	}
 
-	s.quitCh = make(chan struct{}, 1)
+	s.quitCh = make(chan struct{})
 	resultCh := make(chan Report)
 	// start the requests manager
-	go s.requestsManager(resultCh)
+	go s.requestsManager(resultCh, s.quitCh)
 
 	s.started = true
 	return resultCh, nil
@@ -102,7 +108,15 @@ func (s *scannerService) Start() (<-chan Report, error) {
 func (s *scannerService) Stop() {
 	log.Debugln("scanner: stopping scanner ...")
 
-	s.quitCh <- struct{}{}
+	s.startedLocker.Lock()
+	defer s.startedLocker.Unlock()
+
+	if !s.started {
+		return
+	}
+
+	close(s.quitCh)
+	s.requestsQueue.wakeUp()
 	s.started = false
 	//s.requestsQueue = newScanRequestQueue() TODO: commented cause data race
 }
@@ -167,47 +181,30 @@ func (s *scannerService) WatchDescriptorWallet(
 }
 
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
-func (s *scannerService) requestsManager(ch chan<- Report) {
-	defer close(s.quitCh)
-
+func (s *scannerService) requestsManager(ch chan<- Report, quitCh <-chan struct{}) {
 	for {
-		s.requestsQueue.cond.L.Lock()
-		for s.requestsQueue.isEmpty() {
-			logrus.Debug("scanner: scanner queue is empty, waiting for new requests")
-			s.requestsQueue.cond.Wait() // wait for new requests
-
-			// check if we should quit the routine
-			select {
-			case <-s.quitCh:
-				s.requestsQueue.cond.L.Unlock()
-				return
-			default:
-			}
+		// wait for new requests
+		if !s.requestsQueue.waitForRequests(quitCh) {
+			return
 		}
-		s.requestsQueue.cond.L.Unlock()
 
 		// get the next request without removing it from the queue
 		nextRequest := s.requestsQueue.peek()
-		err := s.requestWorker(nextRequest.StartHeight, ch)
+		err := s.requestWorker(nextRequest.StartHeight, ch, quitCh)
 		if err != nil {
 			logrus.Errorf("error while scanning: %v", err)
 		}
-
-		// check if we should quit the routine
-		select {
-		case <-s.quitCh:
-			return
-		default:
-			continue
-		}
-
 	}
 }
 
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
 // TODO handle properly errors (enqueue the unresolved requests ??)
-func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) error {
+func (s *scannerService) requestWorker(
+	startHeight uint32,
+	reportsChan chan<- Report,
+	quitCh <-chan struct{},
+) error {
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
@@ -217,6 +214,13 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 	}
 
 	for nextHeight <= chainTip.Height {
+		// check if we should quit the routine
+		select {
+		case <-quitCh:
+			return nil
+		default:
+		}
+
 		// append all the requests with start height = nextHeight
 		nextBatch = append(nextBatch, s.requestsQueue.dequeueAtHeight(nextHeight)...)
 
@@ -250,7 +254,11 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 
 			for _, report := range reports {
 				// send the report to the output channel
-				reportsChan <- report
+				select {
+				case reportsChan <- report:
+				case <-quitCh:
+					return nil
+				}
 
 				// if the request is persistent, the scanner will keep watching the item at the next block height
 				if report.Request.IsPersistent {
-- 
2.43.0


From 754184d34044939ffa9272ce48ceafd97754c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 16/50] fix: put unresolved scan requests back in the queue
 when a scan fails

---
 pkg/scanner/scanner.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index a957d1b..96ef835 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -199,7 +199,7 @@ func (s *scannerService) requestsManager(ch chan<- Report, quitCh <-chan struct{
 
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
-// TODO handle properly errors (enqueue the unresolved requests ??)
+// the requests that are not resolved are enqueued again
 func (s *scannerService) requestWorker(
 	startHeight uint32,
 	reportsChan chan<- Report,
@@ -208,6 +208,13 @@ func (s *scannerService) requestWorker(
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
+	// enqueue the remaining requests, whatever stopped the scan
+	defer func() {
+		for _, req := range nextBatch {
+			s.requestsQueue.enqueue(req)
+		}
+	}()
+
 	chainTip, err := s.headerDB.ChainTip(context.Background())
 	if err != nil {
 		return err
@@ -286,11 +293,6 @@ func (s *scannerService) requestWorker(
 		}
 	}
 
-	// enqueue the remaining requests
-	for _, req := range nextBatch {
-		s.requestsQueue.enqueue(req)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 472be37bb7f4cb3817f32357807c44446fa81a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 17/50] fix: watch a persistent request again once per block,
 not once per matching transaction

---
 pkg/scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 96ef835..42d1d0c 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -259,6 +259,9 @@ func (s *scannerService) requestWorker(
 				return err
 			}
 
+			// requests already watched again, several transactions may match the same one
+			watchedAgain := make(map[*ScanRequest]bool)
+
 			for _, report := range reports {
 				// send the report to the output channel
 				select {
@@ -268,7 +271,8 @@ func (s *scannerService) requestWorker(
 				}
 
 				// if the request is persistent, the scanner will keep watching the item at the next block height
-				if report.Request.IsPersistent {
+				if report.Request.IsPersistent && !watchedAgain[report.Request] {
+					watchedAgain[report.Request] = true
 					s.Watch(
 						WithRequestID(report.Request.ClientID),
 						WithStartBlock(report.BlockHeight+1),
-- 
2.43.0


From e227bb34078bd6381df3ae6fd7b0f688c257a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 18/50] fix: scan from the lowest requested height so that no
 request waits behind a later one

---
 pkg/scanner/requestqueue.go | 32 ++++++++++++++------------------
 pkg/scanner/scanner.go      |  7 +++----
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index d1f3e98..314686f 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -47,39 +47,35 @@ func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
 	queue.requests = append(queue.requests, req)
 }
 
-func (queue *scanRequestQueue) peek() *ScanRequest {
-	queue.locker.Lock()
-	defer queue.locker.Unlock()
-
-	if len(queue.requests) == 0 {
-		return nil
-	}
-
-	return queue.requests[0]
-}
-
-// waitForRequests blocks until the queue has requests, it returns false if
-// quitCh is closed meanwhile.
-func (queue *scanRequestQueue) waitForRequests(quitCh <-chan struct{}) bool {
+// waitForRequest blocks until the queue has requests and returns the one with the
+// lowest start height without removing it, nil if quitCh is closed meanwhile.
+func (queue *scanRequestQueue) waitForRequest(quitCh <-chan struct{}) *ScanRequest {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 
 	for {
 		select {
 		case <-quitCh:
-			return false
+			return nil
 		default:
 		}
 
-		if len(queue.requests) > 0 {
-			return true
+		var next *ScanRequest
+		for _, req := range queue.requests {
+			if next == nil || req.StartHeight < next.StartHeight {
+				next = req
+			}
+		}
+
+		if next != nil {
+			return next
 		}
 
 		queue.cond.Wait()
 	}
 }
 
-// wakeUp makes waitForRequests check again if it should quit.
+// wakeUp makes waitForRequest check again if it should quit.
 func (queue *scanRequestQueue) wakeUp() {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 42d1d0c..363eeab 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -183,13 +183,12 @@ func (s *scannerService) WatchDescriptorWallet(
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
 func (s *scannerService) requestsManager(ch chan<- Report, quitCh <-chan struct{}) {
 	for {
-		// wait for new requests
-		if !s.requestsQueue.waitForRequests(quitCh) {
+		// get the next request without removing it from the queue
+		nextRequest := s.requestsQueue.waitForRequest(quitCh)
+		if nextRequest == nil {
 			return
 		}
 
-		// get the next request without removing it from the queue
-		nextRequest := s.requestsQueue.peek()
 		err := s.requestWorker(nextRequest.StartHeight, ch, quitCh)
 		if err != nil {
 			logrus.Errorf("error while scanning: %v", err)
-- 
2.43.0


From 624802aca8a210dfdc680285eaa9d2007170631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 19/50] fix: report event types the scanner can't watch instead
 of ignoring them

---
 pkg/scanner/scanner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 363eeab..b57a1ba 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -173,7 +173,8 @@ func (s *scannerService) WatchDescriptorWallet(
 					WithPersistentWatch(),
 				)
 			}
-
+		default:
+			return fmt.Errorf("unsupported event type: %v", v)
 		}
 	}
 
-- 
2.43.0


From f80b21886aa2b4c02218ec860b211c9590b5de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 20/50] fix: keep serving subscribers after one registered a
 wallet that can't be watched

---
 internal/core/application/notification_service.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 025786b..0337061 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -130,8 +130,6 @@ func (n *notificationService) handleSubscribers() {
 					SubscriberID: sub.ID,
 					ErrorMsg:     err,
 				}
-
-				return
 			}
 		case sub := <-n.unregisterSubs:
 			delete(n.subscribers, sub.ID)
-- 
2.43.0


From 6d0623bde5665a68bfdcc052130ec3bba8968b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 21/50] fix: guard the subscribers of the notification service,
 which several goroutines use

---
 .../core/application/notification_service.go  | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 0337061..fe4c44c 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -6,6 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"runtime/debug"
+	"sync"
 )
 
 type NotificationService interface {
@@ -20,6 +21,8 @@ type NotificationService interface {
 type notificationService struct {
 	// subscribers is a map of subscriber IDs and Subscribers with wallet descriptors
 	subscribers map[SubscriberID]Subscriber
+	// subscribersLock protects subscribers
+	subscribersLock sync.RWMutex
 	// scannerSvc is the scanner service used to watch on-chain events
 	scannerSvc scanner.Service
 
@@ -118,7 +121,7 @@ func (n *notificationService) handleSubscribers() {
 	for {
 		select {
 		case sub := <-n.registerSubs:
-			n.subscribers[sub.ID] = sub
+			n.addSubscriberSafe(sub)
 
 			if err := n.scannerSvc.WatchDescriptorWallet(
 				uuid.UUID(sub.ID),
@@ -132,7 +135,7 @@ func (n *notificationService) handleSubscribers() {
 				}
 			}
 		case sub := <-n.unregisterSubs:
-			delete(n.subscribers, sub.ID)
+			n.deleteSubscriberSafe(sub.ID)
 		case <-n.quitHandleSubscribers:
 			log.Debug("notificationService -> handleSubscribers stopped")
 			return
@@ -155,8 +158,7 @@ func (n *notificationService) Subscribe(
 }
 
 func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
-	_, ok := n.subscribers[subscriber.ID]
-	if !ok {
+	if !n.hasSubscriberSafe(subscriber.ID) {
 		return errors.New("subscriber not found")
 	}
 
@@ -166,3 +168,25 @@ func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
 
 	return nil
 }
+
+func (n *notificationService) hasSubscriberSafe(subscriberID SubscriberID) bool {
+	n.subscribersLock.RLock()
+	defer n.subscribersLock.RUnlock()
+
+	_, ok := n.subscribers[subscriberID]
+	return ok
+}
+
+func (n *notificationService) addSubscriberSafe(subscriber Subscriber) {
+	n.subscribersLock.Lock()
+	defer n.subscribersLock.Unlock()
+
+	n.subscribers[subscriber.ID] = subscriber
+}
+
+func (n *notificationService) deleteSubscriberSafe(subscriberID SubscriberID) {
+	n.subscribersLock.Lock()
+	defer n.subscribersLock.Unlock()
+
+	delete(n.subscribers, subscriberID)
+}
-- 
2.43.0


From 0bd0c4da500c1c42b7793366a594c3e58e588f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 22/50] fix: don't report events to subscribers that
 un-subscribed

---
 internal/core/application/notification_service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index fe4c44c..1b9c0d0 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -96,6 +96,10 @@ func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.R
 	for {
 		select {
 		case report := <-scannerReport:
+			if !n.hasSubscriberSafe(SubscriberID(report.Request.ClientID)) {
+				continue // the scanner still watches for subscribers that left
+			}
+
 			n.subsEventReport <- SubscriberEventReport{
 				SubscriberID: SubscriberID(report.Request.ClientID),
 				EventType:    report.Request.Item.EventType(),
-- 
2.43.0


From ae3e698f6b4e790c5ee4e0e7075205465cc66d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 23/50] fix: stop the notification service whatever its
 goroutines are doing

---
 .../core/application/notification_service.go  | 71 +++++++++++--------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 1b9c0d0..f931da7 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -9,6 +9,8 @@ import (
 	"sync"
 )
 
+var errStopped = errors.New("notification service stopped")
+
 type NotificationService interface {
 	Start() error
 	Stop()
@@ -36,24 +38,22 @@ type notificationService struct {
 	// subsErrorReport is a channel used to report errors to subscribers
 	subsErrorReport chan SubscriberErrorReport
 
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleOnChainEvents chan struct{}
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleSubscribers chan struct{}
+	// quit is closed to stop handleOnChainEvents and handleSubscribers
+	quit     chan struct{}
+	quitOnce sync.Once
 }
 
 func NewNotificationService(
 	scannerSvc scanner.Service,
 ) NotificationService {
 	return &notificationService{
-		subscribers:             make(map[SubscriberID]Subscriber),
-		scannerSvc:              scannerSvc,
-		registerSubs:            make(chan Subscriber),
-		unregisterSubs:          make(chan Subscriber),
-		subsEventReport:         make(chan SubscriberEventReport),
-		subsErrorReport:         make(chan SubscriberErrorReport),
-		quitHandleOnChainEvents: make(chan struct{}),
-		quitHandleSubscribers:   make(chan struct{}),
+		subscribers:     make(map[SubscriberID]Subscriber),
+		scannerSvc:      scannerSvc,
+		registerSubs:    make(chan Subscriber),
+		unregisterSubs:  make(chan Subscriber),
+		subsEventReport: make(chan SubscriberEventReport),
+		subsErrorReport: make(chan SubscriberErrorReport),
+		quit:            make(chan struct{}),
 	}
 }
 
@@ -80,10 +80,9 @@ func (n *notificationService) ErrorReport() chan SubscriberErrorReport {
 }
 
 func (n *notificationService) Stop() {
-	log.Debug("sss")
-	n.quitHandleOnChainEvents <- struct{}{}
-	n.quitHandleSubscribers <- struct{}{}
-	log.Debug("sssdsds")
+	n.quitOnce.Do(func() {
+		close(n.quit)
+	})
 }
 
 func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.Report) {
@@ -100,14 +99,19 @@ func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.R
 				continue // the scanner still watches for subscribers that left
 			}
 
-			n.subsEventReport <- SubscriberEventReport{
+			select {
+			case n.subsEventReport <- SubscriberEventReport{
 				SubscriberID: SubscriberID(report.Request.ClientID),
 				EventType:    report.Request.Item.EventType(),
 				BlockHeight:  int(report.BlockHeight),
 				BlockHash:    report.BlockHash,
 				Transaction:  report.Transaction,
+			}:
+			case <-n.quit:
+				log.Debug("notificationService -> handleOnChainEvents stopped")
+				return
 			}
-		case <-n.quitHandleOnChainEvents:
+		case <-n.quit:
 			log.Debug("notificationService -> handleOnChainEvents stopped")
 			return
 		}
@@ -133,14 +137,19 @@ func (n *notificationService) handleSubscribers() {
 				sub.Events,
 				sub.BlockHeight,
 			); err != nil {
-				n.subsErrorReport <- SubscriberErrorReport{
+				select {
+				case n.subsErrorReport <- SubscriberErrorReport{
 					SubscriberID: sub.ID,
 					ErrorMsg:     err,
+				}:
+				case <-n.quit:
+					log.Debug("notificationService -> handleSubscribers stopped")
+					return
 				}
 			}
 		case sub := <-n.unregisterSubs:
 			n.deleteSubscriberSafe(sub.ID)
-		case <-n.quitHandleSubscribers:
+		case <-n.quit:
 			log.Debug("notificationService -> handleSubscribers stopped")
 			return
 		}
@@ -154,11 +163,12 @@ func (n *notificationService) Subscribe(
 		return err
 	}
 
-	go func() {
-		n.registerSubs <- subscriber
-	}()
-
-	return nil
+	select {
+	case n.registerSubs <- subscriber:
+		return nil
+	case <-n.quit:
+		return errStopped
+	}
 }
 
 func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
@@ -166,11 +176,12 @@ func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
 		return errors.New("subscriber not found")
 	}
 
-	go func() {
-		n.unregisterSubs <- subscriber
-	}()
-
-	return nil
+	select {
+	case n.unregisterSubs <- subscriber:
+		return nil
+	case <-n.quit:
+		return errStopped
+	}
 }
 
 func (n *notificationService) hasSubscriberSafe(subscriberID SubscriberID) bool {
-- 
2.43.0


From 0352be6c2b81178d4fa17afea2072d2c45340b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 24/50] fix: keep notifying the other subscribers after one
 disconnected

---
 .../interface/web-socket/handler/notification_handler.go  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index fd4b6e8..6dd4a02 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -111,6 +111,10 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 		select {
 		case eventReport := <-d.notificationSvc.EventReport():
 			subscriber := d.getSubscriberSafe(SubscriberID(eventReport.SubscriberID))
+			if subscriber == nil {
+				log.Debugf("dropping event of disconnected subscriber: %v", eventReport.SubscriberID)
+				continue
+			}
 
 			eventType, err := neutrinodtypes.FromScannerEventTypeToNeutrinodType(eventReport.EventType)
 			if err != nil {
@@ -159,6 +163,10 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			)
 
 			subscriber := d.getSubscriberSafe(SubscriberID(errReport.SubscriberID))
+			if subscriber == nil {
+				log.Debugf("dropping error of disconnected subscriber: %v", errReport.SubscriberID)
+				continue
+			}
 
 			response := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: errReport.ErrorMsg.Error(),
-- 
2.43.0


From 8965818c13a156676f5c31c2aa6190e3ba877380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 25/50] fix: unregister web-socket clients however their
 connection ends

---
 internal/interface/web-socket/handler/ws_handler.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 6906d2d..257a622 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -39,10 +39,14 @@ func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 	conn.SetReadLimit(maxMessageSize)
 
 	subsID := uuid.New()
-	d.registerSubs <- &WsSubscriber{
+	subscriber := &WsSubscriber{
 		ID:           SubscriberID(subsID),
 		WsConnection: conn,
 	}
+	d.registerSubs <- subscriber
+	defer func() {
+		d.unregisterSubs <- subscriber
+	}()
 
 	log.Debugf("new ws subscriber connected: %v", subsID)
 
@@ -62,10 +66,6 @@ msgloop:
 				log.Warnf("Error reading message: %v\n", err)
 			}
 
-			d.unregisterSubs <- &WsSubscriber{
-				ID: SubscriberID(subsID),
-			}
-
 			return
 		}
 
@@ -78,8 +78,6 @@ msgloop:
 
 		log.Debugf("new message from subscriber: %v", subsID)
 
-		subscriber := d.getSubscriberSafe(SubscriberID(subsID)).(*WsSubscriber)
-
 		events := make([]scanner.EventType, 0, len(wsMsg.EventTypes))
 		for _, v := range wsMsg.EventTypes {
 			eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
-- 
2.43.0


From e3b1a25d6e897dbb2d0da203273778fd97d23996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 26/50] fix: send one response per request, and success only
 for requests that succeeded

---
 internal/interface/web-socket/handler/http_handler.go |  2 ++
 internal/interface/web-socket/handler/ws_handler.go   | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 8894a8f..7b457a9 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -41,6 +41,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 		log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -58,6 +59,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful un-registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 
 		log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 257a622..046f990 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -111,8 +111,8 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+				goto msgloop
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -132,8 +132,8 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+				goto msgloop
 			}
 
 			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
@@ -146,6 +146,12 @@ msgloop:
 			}
 		default:
 			log.Errorf("unknown action type: %v\n", wsMsg.ActionType)
+
+			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "bad request",
+			}); err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+			}
 		}
 	}
 }
-- 
2.43.0


From e096821b30987d359be87b506787e06bdb51e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 27/50] fix: don't keep HTTP subscribers whose request didn't
 register them

---
 internal/interface/web-socket/handler/http_handler.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 7b457a9..161219e 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -22,13 +22,15 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	}
 
 	subsID := uuid.New()
-	d.registerSubs <- &HttpSubscriber{
-		ID:          SubscriberID(subsID),
-		EndpointUrl: subscriptionReq.EndpointUrl,
-	}
 
 	switch subscriptionReq.ActionType {
 	case neutrinodtypes.Register:
+		subscriber := &HttpSubscriber{
+			ID:          SubscriberID(subsID),
+			EndpointUrl: subscriptionReq.EndpointUrl,
+		}
+		d.registerSubs <- subscriber
+
 		if err := d.notificationSvc.Subscribe(application.Subscriber{
 			ID:               application.SubscriberID(subsID),
 			BlockHeight:      subscriptionReq.StartBlockHeight,
@@ -36,6 +38,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 			WalletDescriptor: subscriptionReq.DescriptorWallet,
 		}); err != nil {
 			log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
+			d.unregisterSubs <- subscriber
 
 			resp := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "un-successful registration",
-- 
2.43.0


From 3b055ee0a08f3b4779124e54b4d23782b566aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 28/50] fix: serialize writes to the same web-socket connection

---
 .../web-socket/handler/notification_handler.go  |  4 ++--
 internal/interface/web-socket/handler/types.go  |  3 +++
 .../interface/web-socket/handler/ws_handler.go  | 17 ++++++++++-------
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index 6dd4a02..ff9957a 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -130,7 +130,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
@@ -175,7 +175,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
diff --git a/internal/interface/web-socket/handler/types.go b/internal/interface/web-socket/handler/types.go
index c5db394..0d8f691 100644
--- a/internal/interface/web-socket/handler/types.go
+++ b/internal/interface/web-socket/handler/types.go
@@ -3,6 +3,7 @@ package handler
 import (
 	"github.com/google/uuid"
 	"github.com/gorilla/websocket"
+	"sync"
 )
 
 type SubscriberID uuid.UUID
@@ -17,6 +18,8 @@ type Subscriber interface {
 type WsSubscriber struct {
 	ID           SubscriberID
 	WsConnection *websocket.Conn
+	// writeLock serializes writes to WsConnection, which supports one writer at a time
+	writeLock sync.Mutex
 }
 
 func (w *WsSubscriber) Type() SubscriberType {
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 046f990..aea2785 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -84,7 +84,7 @@ msgloop:
 			if err != nil {
 				log.Errorf("unsucesfull conversion FromNeutrinodTypeToScannerEventType %v", err)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: "irregular event type",
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -107,7 +107,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -116,7 +116,7 @@ msgloop:
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -128,7 +128,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -138,7 +138,7 @@ msgloop:
 
 			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully un-registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -147,7 +147,7 @@ msgloop:
 		default:
 			log.Errorf("unknown action type: %v\n", wsMsg.ActionType)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "bad request",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -160,7 +160,7 @@ func sendResponseToSubscriberWs[
 	V neutrinodtypes.MessageErrorResponse |
 		neutrinodtypes.OnChainEventResponse |
 		neutrinodtypes.GeneralMessageResponse](
-	subscriber WsSubscriber,
+	subscriber *WsSubscriber,
 	resp V,
 ) error {
 	defer func() {
@@ -175,6 +175,9 @@ func sendResponseToSubscriberWs[
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
+	subscriber.writeLock.Lock()
+	defer subscriber.writeLock.Unlock()
+
 	if err = subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
-- 
2.43.0


From 5e9200a0be9df34aee060af3b35b39dab366678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 29/50] fix: bound the time a subscriber may take to accept a
 notification

---
 .../interface/web-socket/handler/notification_handler.go  | 8 ++++++--
 internal/interface/web-socket/handler/ws_handler.go       | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index ff9957a..34122b8 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -15,6 +15,8 @@ import (
 
 const (
 	maxMessageSize = 512
+	// notificationTimeout bounds how long a subscriber may take to accept a notification
+	notificationTimeout = 10 * time.Second
 
 	wsType   SubscriberType = "ws"
 	httpType SubscriberType = "http"
@@ -23,6 +25,8 @@ const (
 var (
 	newline = []byte{'\n'}
 	space   = []byte{' '}
+
+	notificationClient = &http.Client{Timeout: notificationTimeout}
 )
 
 type descriptorWalletNotifierHandler struct {
@@ -142,7 +146,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 						log.Errorf("handleOnChainNotifications -> %v", err)
 					}
 
-					resp, err := http.Post(
+					resp, err := notificationClient.Post(
 						httpSubscriber.EndpointUrl,
 						"application/json",
 						bytes.NewBuffer(respJson),
@@ -187,7 +191,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 						log.Errorf("handleOnChainNotifications -> %v", err)
 					}
 
-					resp, err := http.Post(
+					resp, err := notificationClient.Post(
 						httpSubscriber.EndpointUrl,
 						"application/json",
 						bytes.NewBuffer(respJson),
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index aea2785..20bf163 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -12,6 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"net/http"
 	"runtime/debug"
+	"time"
 )
 
 func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestWs(
@@ -178,6 +179,10 @@ func sendResponseToSubscriberWs[
 	subscriber.writeLock.Lock()
 	defer subscriber.writeLock.Unlock()
 
+	if err = subscriber.WsConnection.SetWriteDeadline(time.Now().Add(notificationTimeout)); err != nil {
+		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
+	}
+
 	if err = subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
-- 
2.43.0


From 65ef8a20b2dfe80a752259b5f9154c009e459cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 30/50] fix: bound the body of HTTP subscription requests

---
 internal/interface/web-socket/handler/http_handler.go         | 2 +-
 internal/interface/web-socket/handler/notification_handler.go | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 161219e..1ea246a 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -15,7 +15,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 ) {
 	var subscriptionReq neutrinodtypes.SubscriptionRequestHttp
 
-	err := json.NewDecoder(req.Body).Decode(&subscriptionReq)
+	err := json.NewDecoder(http.MaxBytesReader(w, req.Body, maxRequestSize)).Decode(&subscriptionReq)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
 		return
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index 34122b8..1bff51a 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -15,6 +15,8 @@ import (
 
 const (
 	maxMessageSize = 512
+	// maxRequestSize is the max size of the body of an HTTP request
+	maxRequestSize = 64 * 1024
 	// notificationTimeout bounds how long a subscriber may take to accept a notification
 	notificationTimeout = 10 * time.Second
 
-- 
2.43.0


From 5a3e6655d3c418d9f049c78241dbb5cc7885554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 31/50] fix: stop the notifications handler whatever its
 goroutines are doing

---
 .../web-socket/handler/http_handler.go        |  7 ++-
 .../handler/notification_handler.go           | 48 +++++++++++++------
 .../web-socket/handler/ws_handler.go          |  8 ++--
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 1ea246a..16b8bed 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -29,7 +29,10 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 			ID:          SubscriberID(subsID),
 			EndpointUrl: subscriptionReq.EndpointUrl,
 		}
-		d.registerSubs <- subscriber
+		if !d.register(subscriber) {
+			http.Error(w, http.StatusText(http.StatusServiceUnavailable), http.StatusServiceUnavailable)
+			return
+		}
 
 		if err := d.notificationSvc.Subscribe(application.Subscriber{
 			ID:               application.SubscriberID(subsID),
@@ -38,7 +41,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 			WalletDescriptor: subscriptionReq.DescriptorWallet,
 		}); err != nil {
 			log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
-			d.unregisterSubs <- subscriber
+			d.unregister(subscriber)
 
 			resp := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "un-successful registration",
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index 1bff51a..ef19dae 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -43,10 +43,10 @@ type descriptorWalletNotifierHandler struct {
 	// unregisterSubs is a channel for unregistering subscribers
 	unregisterSubs chan Subscriber
 
-	// quit is a channel for stopping handleSubscribers
-	quitHandleSubscribers chan struct{}
-	// quit is a channel for stopping handleSubscribers
-	quitHandleOnChainNotifications chan struct{}
+	// quit is closed to stop handleSubscribers, handleOnChainNotifications and the
+	// handlers of requests
+	quit     chan struct{}
+	quitOnce sync.Once
 }
 
 type DescriptorWalletNotifierHandler interface {
@@ -60,13 +60,12 @@ func NewDescriptorWalletNotifierHandler(
 	notificationSvc application.NotificationService,
 ) DescriptorWalletNotifierHandler {
 	return &descriptorWalletNotifierHandler{
-		notificationSvc:                notificationSvc,
-		subscribers:                    make(map[SubscriberID]Subscriber),
-		subscribersLock:                new(sync.RWMutex),
-		registerSubs:                   make(chan Subscriber),
-		unregisterSubs:                 make(chan Subscriber),
-		quitHandleSubscribers:          make(chan struct{}),
-		quitHandleOnChainNotifications: make(chan struct{}),
+		notificationSvc: notificationSvc,
+		subscribers:     make(map[SubscriberID]Subscriber),
+		subscribersLock: new(sync.RWMutex),
+		registerSubs:    make(chan Subscriber),
+		unregisterSubs:  make(chan Subscriber),
+		quit:            make(chan struct{}),
 	}
 }
 
@@ -76,8 +75,9 @@ func (d *descriptorWalletNotifierHandler) Start() {
 }
 
 func (d *descriptorWalletNotifierHandler) Stop() {
-	d.quitHandleSubscribers <- struct{}{}
-	d.quitHandleOnChainNotifications <- struct{}{}
+	d.quitOnce.Do(func() {
+		close(d.quit)
+	})
 	time.Sleep(time.Second) // wait for DescriptorWalletNotifierHandler to stop
 
 	d.notificationSvc.Stop()
@@ -99,7 +99,7 @@ func (d *descriptorWalletNotifierHandler) handleSubscribers() {
 				log.Errorf("failed unsubscribing from chain: %v", err.Error())
 			}
 
-		case <-d.quitHandleSubscribers:
+		case <-d.quit:
 			log.Debugf("descriptorWalletNotifierHandler -> handleSubscribers stopped")
 			return
 		}
@@ -206,13 +206,31 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 				}()
 			}
 
-		case <-d.quitHandleOnChainNotifications:
+		case <-d.quit:
 			log.Debugf("descriptorWalletNotifierHandler -> handleOnChainNotifications stopped")
 			return
 		}
 	}
 }
 
+// register hands the subscriber over to handleSubscribers, false if the handler is stopped
+func (d *descriptorWalletNotifierHandler) register(subscriber Subscriber) bool {
+	select {
+	case d.registerSubs <- subscriber:
+		return true
+	case <-d.quit:
+		return false
+	}
+}
+
+// unregister hands the subscriber to remove over to handleSubscribers
+func (d *descriptorWalletNotifierHandler) unregister(subscriber Subscriber) {
+	select {
+	case d.unregisterSubs <- subscriber:
+	case <-d.quit:
+	}
+}
+
 func (d *descriptorWalletNotifierHandler) getSubscriberSafe(subscriberID SubscriberID) Subscriber {
 	d.subscribersLock.RLock()
 	defer d.subscribersLock.RUnlock()
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 20bf163..859a2a0 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -44,10 +44,10 @@ func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 		ID:           SubscriberID(subsID),
 		WsConnection: conn,
 	}
-	d.registerSubs <- subscriber
-	defer func() {
-		d.unregisterSubs <- subscriber
-	}()
+	if !d.register(subscriber) {
+		return
+	}
+	defer d.unregister(subscriber)
 
 	log.Debugf("new ws subscriber connected: %v", subsID)
 
-- 
2.43.0


From 08c97973e19e1fbcd3112fd627d20d296cba18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 32/50] fix: store the new headers of a batch that has known
 ones too

---
 .../storage/db/pg/header_repository_impl.go            | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 65a9ccf..ba6c567 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -7,8 +7,6 @@ import (
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/btcsuite/btcd/wire"
-	"github.com/lib/pq"
-	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
@@ -120,15 +118,9 @@ func (h *headerRepositoryImpl) WriteHeaders(
 			HeaderBytes: headerBytes,
 		}
 
-		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes);`
+		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes) ON CONFLICT (hash) DO NOTHING;`
 
 		if _, err = tx.NamedExec(query, bh); err != nil {
-			if pqErr := err.(*pq.Error); pqErr != nil {
-				if pqErr.Code == uniqueViolation {
-					log.Warnf("header already exists: %s", hash.String())
-					return nil
-				}
-			}
 			return err
 		}
 	}
-- 
2.43.0


From 4993a8c3c81ee8480e75c4035b86dd1f38198b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 33/50] fix: report errors of the database connection instead
 of panicking

---
 .../infrastructure/storage/db/pg/filter_repository_impl.go    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/pg/filter_repository_impl.go b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
index d38871f..c325ead 100644
--- a/internal/infrastructure/storage/db/pg/filter_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"database/sql"
+	"errors"
 	"fmt"
 	"github.com/lib/pq"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -49,7 +50,8 @@ func (f filterRepositoryImpl) PutFilter(
 		&filter,
 	)
 	if err != nil {
-		if pqErr := err.(*pq.Error); pqErr != nil {
+		var pqErr *pq.Error
+		if errors.As(err, &pqErr) {
 			if pqErr.Code == uniqueViolation {
 				f, err := f.GetFilter(ctx, entry.Key)
 				if err != nil {
-- 
2.43.0


From 865b001af1570c40ccee589104f3f944ebded9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 34/50] fix: report failed reads of the stored headers instead
 of treating them as empty

---
 .../infrastructure/storage/db/pg/header_repository_impl.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index ba6c567..27ece68 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -263,8 +263,11 @@ func (h *headerRepositoryImpl) getAllBlockHeaders() ([]*block.Header, error) {
 	query := `select * from block_header;`
 
 	blockHeaders := []*BlockHeader{}
-	err := h.db.Db.Select(&blockHeaders, query)
-	if err == sql.ErrNoRows {
+	if err := h.db.Db.Select(&blockHeaders, query); err != nil {
+		return nil, err
+	}
+
+	if len(blockHeaders) == 0 {
 		return nil, repository.ErrNoBlocksHeaders
 	}
 
-- 
2.43.0


From 67fa0ceac3ba3b65e7cf3fb2ca4f23aa8eb5a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 35/50] fix: return an error for headers that are not stored
 instead of dereferencing nil

---
 .../infrastructure/storage/db/inmemory/header_inmemory.go    | 5 ++++-
 .../infrastructure/storage/db/pg/header_repository_impl.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 72b9ff3..7d747da 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -164,7 +164,10 @@ func (h *headerInmemory) HasAllAncestors(_ context.Context, hash chainhash.Hash)
 		return false, repository.ErrNoBlocksHeaders
 	}
 
-	blockHeader := h.headers[hash]
+	blockHeader, ok := h.headers[hash]
+	if !ok {
+		return false, repository.ErrBlockNotFound
+	}
 
 	for blockHeader.Height > 1 {
 		currentHash, err := chainhash.NewHash(blockHeader.PrevBlockHash)
diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 27ece68..ec1b011 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -213,7 +213,10 @@ func (h *headerRepositoryImpl) blockLocatorFromHash(blck *block.Header) (blockch
 	height := blck.Height
 	decrement := uint32(1)
 	for height > 0 && len(locator) < wire.MaxBlockLocatorsPerMsg {
-		blockHeader, _ := headersMap[height]
+		blockHeader, ok := headersMap[height]
+		if !ok {
+			return nil, repository.ErrBlockNotFound
+		}
 
 		headerHash, err := blockHeader.Hash()
 		if err != nil {
-- 
2.43.0


From b016a3cb01163f9f29d99637dd4cf63f16a0a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 36/50] fix: report an unknown height as block not found, as
 the in-memory repository does

---
 internal/infrastructure/storage/db/pg/header_repository_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index ec1b011..7510143 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -248,7 +248,7 @@ func (h *headerRepositoryImpl) getBlockHeaderByHeight(height uint32) (*block.Hea
 	err := h.db.Db.Get(blockHeader, query, height)
 	if err != nil {
 		if err == sql.ErrNoRows {
-			return nil, repository.ErrNoBlocksHeaders
+			return nil, repository.ErrBlockNotFound
 		}
 
 		return nil, err
-- 
2.43.0


From e968489df4d37b4d0457e5b4f69e20cb78e895c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 37/50] fix: store each header of a batch instead of the last
 one under every hash

---
 internal/infrastructure/storage/db/inmemory/header_inmemory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 7d747da..0721fc8 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -73,6 +73,8 @@ func (h *headerInmemory) WriteHeaders(_ context.Context, headers ...block.Header
 	defer h.locker.Unlock()
 
 	for _, header := range headers {
+		header := header // each stored header needs its own copy
+
 		hash, err := header.Hash()
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From 426a92eaf888641a2275e0f83604bac61b701bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 38/50] fix: compute filter keys without writing to the memory
 behind the block hash

---
 pkg/repository/filter_repository.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/repository/filter_repository.go b/pkg/repository/filter_repository.go
index e132e10..d2a3c7d 100644
--- a/pkg/repository/filter_repository.go
+++ b/pkg/repository/filter_repository.go
@@ -53,6 +53,10 @@ type FilterKey struct {
 }
 
 func (k FilterKey) String() string {
-	hashedKey := btcutil.Hash160(append(k.BlockHash, byte(k.FilterType)))
+	preimage := make([]byte, 0, len(k.BlockHash)+1)
+	preimage = append(preimage, k.BlockHash...)
+	preimage = append(preimage, byte(k.FilterType))
+
+	hashedKey := btcutil.Hash160(preimage)
 	return hex.EncodeToString(hashedKey[:6])
 }
-- 
2.43.0


From 603a46d65909b90c7a023c4c3ff69c1811a8a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 39/50] fix: don't run the daemon when one of its services
 failed to start

---
 internal/interface/web-socket/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index f35dd11..39dcde3 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -54,6 +54,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	log.Infoln("neutrinod: waiting for node to sync with peer...")
 	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
 		errC <- err
+		return errC
 	}
 	log.Infoln("neutrinod: node is synced with peer")
 
@@ -61,6 +62,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	genesisBlockHash, err := chainhash.NewHashFromStr(genesisBlockHashStr)
 	if err != nil {
 		errC <- err
+		return errC
 	}
 
 	scannerSvc := scanner.New(
@@ -74,6 +76,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 	if err := notificationSvc.Start(); err != nil {
 		errC <- err
+		return errC
 	}
 
 	descriptorWalletNotifierSvc := handler.NewDescriptorWalletNotifierHandler(notificationSvc)
-- 
2.43.0


From 8b2fd5502e5a115596f5b8d96bff70c280e431d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 40/50] fix: scan from the genesis block of the configured
 network

---
 internal/interface/web-socket/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index 39dcde3..dc4c31a 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -58,7 +58,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	}
 	log.Infoln("neutrinod: node is synced with peer")
 
-	genesisBlockHashStr := protocol.GetCheckpoints(protocol.MagicRegtest)[0]
+	genesisBlockHashStr := protocol.GetCheckpoints(protocol.Networks[n.nodeCfg.Network])[0]
 	genesisBlockHash, err := chainhash.NewHashFromStr(genesisBlockHashStr)
 	if err != nil {
 		errC <- err
-- 
2.43.0


From 3f9c6337330f3a301aa5772cf4bfe42a2880e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 41/50] fix: close the error channel of the server only after
 its last sender is done

---
 internal/interface/web-socket/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index dc4c31a..d80fcb0 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -50,6 +50,7 @@ func NewElementsNeutrinoServer(
 
 func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-chan error {
 	errC := make(chan error, 1)
+	serveDone := make(chan struct{}) // closed once the http server can't report errors anymore
 
 	log.Infoln("neutrinod: waiting for node to sync with peer...")
 	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
@@ -123,6 +124,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 			stop()
 			cancel()
+			<-serveDone
 			close(errC)
 		}()
 
@@ -136,6 +138,8 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 	// start http server
 	go func() {
+		defer close(serveDone)
+
 		log.Infof(
 			"neutrinod: neutrino-elements daemon listening and serving at: %v",
 			n.serverAddress)
-- 
2.43.0


From a7e5900d5de35824800fc34864fa1d9fa48e66b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 42/50] fix: report headers that could not be stored in memory

---
 .../infrastructure/storage/db/inmemory/header_inmemory.go     | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 0721fc8..2d54bfd 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -7,7 +7,6 @@ import (
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/btcsuite/btcd/wire"
-	"github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
@@ -77,8 +76,7 @@ func (h *headerInmemory) WriteHeaders(_ context.Context, headers ...block.Header
 
 		hash, err := header.Hash()
 		if err != nil {
-			logrus.Error(err)
-			continue
+			return err
 		}
 		h.headers[hash] = &header
 	}
-- 
2.43.0


From bae23d4bf52d2aa83bdfbb9c0c3d7141cec8fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 43/50] fix: report an unreadable CLI state instead of
 overwriting it as empty

---
 cmd/neutrino/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/neutrino/main.go b/cmd/neutrino/main.go
index 76a2b24..676e64f 100644
--- a/cmd/neutrino/main.go
+++ b/cmd/neutrino/main.go
@@ -72,7 +72,13 @@ func getState() (map[string]string, error) {
 	if err != nil {
 		return nil, errors.New("get config state error: try 'config cmd'")
 	}
-	json.Unmarshal(file, &data)
+	if len(file) == 0 {
+		return data, nil
+	}
+
+	if err := json.Unmarshal(file, &data); err != nil {
+		return nil, fmt.Errorf("parsing config state: %w", err)
+	}
 
 	return data, nil
 }
@@ -80,7 +86,9 @@ func getState() (map[string]string, error) {
 func setState(data map[string]string) error {
 
 	if _, err := os.Stat(neutrinoDataDir); os.IsNotExist(err) {
-		os.Mkdir(neutrinoDataDir, os.ModeDir|0755)
+		if err := os.Mkdir(neutrinoDataDir, os.ModeDir|0755); err != nil {
+			return err
+		}
 	}
 
 	file, err := os.OpenFile(statePath, os.O_RDONLY|os.O_CREATE, 0644)
-- 
2.43.0


From c1e72992f2c9e1c86d726a3dc8309f5379185a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 44/50] fix: keep the CLI state when writing the new one is
 interrupted

---
 cmd/neutrino/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/neutrino/main.go b/cmd/neutrino/main.go
index 676e64f..735ec1f 100644
--- a/cmd/neutrino/main.go
+++ b/cmd/neutrino/main.go
@@ -112,10 +112,15 @@ func setState(data map[string]string) error {
 	if err != nil {
 		return err
 	}
-	err = ioutil.WriteFile(statePath, jsonString, 0755)
+	// replace the state in one step, so that an interrupted write keeps the old one
+	tmpPath := statePath + ".tmp"
+	err = ioutil.WriteFile(tmpPath, jsonString, 0755)
 	if err != nil {
 		return fmt.Errorf("writing to file: %w", err)
 	}
+	if err := os.Rename(tmpPath, statePath); err != nil {
+		return fmt.Errorf("replacing state file: %w", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From dd87b14f3a2b62afd347a5bc9bb29f1258b06103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 45/50] fix: reject descriptors the parser doesn't support
 instead of dereferencing nil

---
 pkg/scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index b57a1ba..493bb34 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -140,6 +140,10 @@ func (s *scannerService) WatchDescriptorWallet(
 				return err
 			}
 
+			if wallet == nil {
+				return fmt.Errorf("unsupported descriptor: %v", desc)
+			}
+
 			var scripts []descriptor.ScriptResponse
 
 			if wallet.IsRange() {
-- 
2.43.0


From 6038a3ff0304c41c1e30fc465e2ff17d4c075fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 46/50] fix: keep serving subscribers after a panic in a shared
 goroutine

---
 internal/core/application/notification_service.go             | 2 ++
 internal/interface/web-socket/handler/notification_handler.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index f931da7..c177250 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -90,6 +90,7 @@ func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.R
 		if err := recover(); err != nil {
 			log.Errorf("handleOnChainEvents recovered from panic: %v", err)
 			log.Tracef("handleOnChainEvents recovered from panic: %v", string(debug.Stack()))
+			n.handleOnChainEvents(scannerReport) // one event must not end those of all subscribers
 		}
 	}()
 	for {
@@ -123,6 +124,7 @@ func (n *notificationService) handleSubscribers() {
 		if err := recover(); err != nil {
 			log.Errorf("handleSubscribers recovered from panic: %v", err)
 			log.Tracef("handleSubscribers recovered from panic: %v", string(debug.Stack()))
+			n.handleSubscribers() // one subscription must not end those of all subscribers
 		}
 	}()
 
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index ef19dae..538c5bc 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -111,6 +111,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 		if err := recover(); err != nil {
 			log.Errorf("handleOnChainNotifications recovered from panic: %v", err)
 			log.Tracef("handleOnChainNotifications recovered from panic: %v", string(debug.Stack()))
+			d.handleOnChainNotifications() // one notification must not end those of all subscribers
 		}
 	}()
 	for {
-- 
2.43.0


From b446dae3390ff1e7ddadb194b2fb3d24c3df296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 47/50] fix: don't report the node synced before the peer
 announced its tip

---
 pkg/node/chainsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index 362d3d1..a817f5e 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -43,6 +43,11 @@ func (n *node) synced(p peer.Peer) (bool, error) {
 	log.Debugf("node: chainTip: %v", chainTip.Height)
 	log.Debugf("node: PeersTip: %v", p.PeersTip())
 
+	// the tip of the peer is unknown until it announced it in its version message
+	if p.PeersTip() == 0 {
+		return false, nil
+	}
+
 	if chainTip.Height < p.PeersTip() {
 		return false, nil
 	}
-- 
2.43.0


From 97f8141b637db7dc8ca8797714cd38d68cbe75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:01 +0000
Subject: [PATCH 48/50] fix: MsgTx.Hash returns the transaction id, not the
 hash of the witnesses too

---
 pkg/protocol/msg_tx.go | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/pkg/protocol/msg_tx.go b/pkg/protocol/msg_tx.go
index ae27c60..b1cc3fb 100644
--- a/pkg/protocol/msg_tx.go
+++ b/pkg/protocol/msg_tx.go
@@ -1,10 +1,8 @@
 package protocol
 
 import (
-	"crypto/sha256"
-	"fmt"
+	"encoding/hex"
 	"io"
-	"sort"
 
 	"github.com/vulpemventures/go-elements/transaction"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -26,21 +24,7 @@ func NewMsgTxFromHex(hex string) (MsgTx, error) {
 
 // Hash returns transaction ID.
 func (tx MsgTx) Hash() ([]byte, error) {
-	serialized, err := tx.MarshalBinary()
-	if err != nil {
-		return nil, fmt.Errorf("tx.MarshalBinary: %+v", err)
-	}
-
-	hash := sha256.Sum256(serialized)
-	hash = sha256.Sum256(hash[:])
-
-	txid := hash[:]
-
-	sort.SliceStable(txid, func(i, j int) bool {
-		return true
-	})
-
-	return txid, nil
+	return hex.DecodeString(tx.HashStr())
 }
 
 func (tx MsgTx) HashStr() string {
-- 
2.43.0


From fb19bca5d607c74a9dd746ab7f09729883fad881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:57 +0000
Subject: [PATCH 49/50] fix: close the connections that are given up when a
 later step fails

---
 internal/infrastructure/storage/db/pg/db_service.go | 1 +
 pkg/node/node.go                                    | 1 +
 pkg/peer/peer.go                                    | 4 ++--
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/db_service.go b/internal/infrastructure/storage/db/pg/db_service.go
index b97435c..488ab00 100644
--- a/internal/infrastructure/storage/db/pg/db_service.go
+++ b/internal/infrastructure/storage/db/pg/db_service.go
@@ -51,6 +51,7 @@ func NewDbService(dbConfig DbConfig) (*DbService, error) {
 	}
 
 	if err = migrateDb(db.DB, dbConfig.MigrationSourceURL); err != nil {
+		db.Close()
 		return nil, err
 	}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 7ef89a1..df82563 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -129,6 +129,7 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 
 	err = n.AddOutboundPeer(initialPeer)
 	if err != nil {
+		initialPeer.Connection().Close()
 		return err
 	}
 
diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index ccae398..61e0741 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -35,12 +35,12 @@ type elementsPeer struct {
 }
 
 func NewElementsPeer(peerAddr string) (Peer, error) {
-	conn, err := net.Dial("tcp", peerAddr)
+	netAddress, err := protocol.ParseNodeAddr(peerAddr)
 	if err != nil {
 		return nil, err
 	}
 
-	netAddress, err := protocol.ParseNodeAddr(peerAddr)
+	conn, err := net.Dial("tcp", peerAddr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From aaf55d4df5fed84c8aff694e4ee910f807eecc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 50/50] fix: ReadUntilEOF keeps the bytes read together with
 the end of the stream

---
 pkg/binary/unmarshaler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 25cc675..1717a29 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -121,6 +121,9 @@ func (d Decoder) ReadUntilEOF() (bytes.Buffer, error) {
 		buf := make([]byte, 1)
 		n, err := d.r.Read(buf)
 
+		// the last bytes may come together with the end of the stream
+		b.Write(buf[:n])
+
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -128,8 +131,6 @@ func (d Decoder) ReadUntilEOF() (bytes.Buffer, error) {
 
 			return b, err
 		}
-
-		b.Write(buf[:n])
 	}
 
 	return b, nil
-- 
2.43.0

