From 36dabd4bfb83d53c4a5f18c08664200bc1245757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:58 +0000
Subject: [PATCH 01/32] fix: set the OpCode when encoding every packet type

Nine packet types were encoded with whatever OpCode they held, which is 0
unless the caller knew to set it, so their datagrams were undecodable.
---
 packet/artaddress.go     | 1 +
 packet/artcommand.go     | 1 +
 packet/artdiagdata.go    | 1 +
 packet/artipprog.go      | 1 +
 packet/artipprogreply.go | 1 +
 packet/artnzs.go         | 1 +
 packet/artsync.go        | 1 +
 packet/arttimecode.go    | 1 +
 packet/arttrigger.go     | 1 +
 9 files changed, 9 insertions(+)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 7b831f9..056d3bc 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -99,5 +99,6 @@ func (p *ArtAddressPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtAddressPacket) finish() {
+	p.OpCode = code.OpAddress
 	p.Header.finish()
 }
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 49b5816..4a69ecb 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -83,6 +83,7 @@ func (p *ArtCommandPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtCommandPacket) finish() {
+	p.OpCode = code.OpCommand
 	p.Header.finish()
 	p.ESTAmanufacturer = [2]byte{0xff, 0xff}
 }
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 5997e43..1150bbe 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -70,5 +70,6 @@ func (p *ArtDiagDataPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtDiagDataPacket) finish() {
+	p.OpCode = code.OpDiagData
 	p.Header.finish()
 }
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 17916e9..5701d08 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -78,5 +78,6 @@ func (p *ArtIPProgPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgPacket) finish() {
+	p.OpCode = code.OpIPProg
 	p.Header.finish()
 }
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 7b08b8c..6fdb3c6 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -74,5 +74,6 @@ func (p *ArtIPProgReplyPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgReplyPacket) finish() {
+	p.OpCode = code.OpIPProgReply
 	p.Header.finish()
 }
diff --git a/packet/artnzs.go b/packet/artnzs.go
index 8a568b4..fbae5c6 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -78,5 +78,6 @@ func (p *ArtNzsPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtNzsPacket) finish() {
+	p.OpCode = code.OpNzs
 	p.Header.finish()
 }
diff --git a/packet/artsync.go b/packet/artsync.go
index 88ee754..ab6e4cd 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -61,5 +61,6 @@ func (p *ArtSyncPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtSyncPacket) finish() {
+	p.OpCode = code.OpSync
 	p.Header.finish()
 }
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 57dd624..054e6a7 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -75,5 +75,6 @@ func (p *ArtTimeCodePacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTimeCodePacket) finish() {
+	p.OpCode = code.OpTimeCode
 	p.Header.finish()
 }
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index 7c5c045..a966212 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -96,5 +96,6 @@ func (p *ArtTriggerPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTriggerPacket) finish() {
+	p.OpCode = code.OpTrigger
 	p.Header.finish()
 }
-- 
2.43.0


From 117d22ec28091050dc6a55930aedbd2c4b986e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:58 +0000
Subject: [PATCH 02/32] fix: encoding a packet no longer alters it

finish swaps bytes in place, so a packet that had been encoded reported a
swapped OpCode (and port), and encoding it again gave another datagram.
---
 packet/header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packet/header.go b/packet/header.go
index 9a62655..579bccb 100644
--- a/packet/header.go
+++ b/packet/header.go
@@ -6,6 +6,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"reflect"
 
 	"github.com/jsimonetti/go-artnet/packet/code"
 	"github.com/jsimonetti/go-artnet/version"
@@ -102,6 +103,11 @@ func (p *Header) swapOpCode() {
 }
 
 func marshalPacket(p ArtNetPacket) ([]byte, error) {
+	// finish a copy, encoding must not alter the packet of the caller
+	c := reflect.New(reflect.TypeOf(p).Elem())
+	c.Elem().Set(reflect.ValueOf(p).Elem())
+	p = c.Interface().(ArtNetPacket)
+
 	p.finish()
 	var buf bytes.Buffer
 	if err := binary.Write(&buf, binary.BigEndian, p); err != nil {
-- 
2.43.0


From a8e08e8fa08856cc60f4f034fe4999ea8318c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 03/32] fix: always encode port 6454 in an ArtPollReply

The field is documented as always 0x1936, and the decoder refuses any other
value; a packet without it was encoded with port 0.
---
 packet/artpollreply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index 220c25e..e01ce78 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -187,5 +187,5 @@ func (p *ArtPollReplyPacket) finish() {
 	// working packet we do it here "manually"
 	p.ID = ArtNet
 	p.OpCode = code.OpCode(swapUint16(uint16(code.OpPollReply)))
-	p.Port = swapUint16(p.Port)
+	p.Port = swapUint16(ArtNetPort)
 }
-- 
2.43.0


From 50e44ff4b8649d489c8941bfc0afc2ca0288921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 04/32] fix: refuse other OpCodes when decoding an ArtDMX
 packet

ArtDMX decodes its fields itself and skipped the OpCode check which all other
packet types make.
---
 packet/artdmx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 7714760..3cc40bc 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -84,6 +84,9 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if err := p.Header.unmarshal(b[:12]); err != nil {
 		return err
 	}
+	if p.OpCode != code.OpDMX {
+		return errInvalidOpCode
+	}
 
 	p.Sequence = b[12]
 	p.Physical = b[13]
-- 
2.43.0


From 48e9d10e63353275ba5f982c023a7c2b3fa86ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 05/32] fix: clear channels left over from an earlier decode
 into an ArtDMX packet

---
 packet/artdmx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 3cc40bc..f2ea35a 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -101,6 +101,7 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if len(b) < l+18 || l < 2 || l > 512 || l%2 != 0 {
 		return errInvalidPacket
 	}
+	p.Data = [512]byte{}
 	copy(p.Data[0:l], b[18:18+l])
 
 	return nil
-- 
2.43.0


From 1759c286a67065eda15e9c4bec94596b00d0e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:25 +0000
Subject: [PATCH 06/32] fix: check the Art-Net ID when decoding an ArtPollReply
 packet

---
 packet/artpollreply.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index e01ce78..943f00a 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -159,6 +159,10 @@ func (p *ArtPollReplyPacket) validate() error {
 	// ArtPollReply is a packer not using the standard header, so we need to do
 	// some extra things here that are normally done in the header validate
 
+	if p.ID != ArtNet {
+		return errInvalidPacket
+	}
+
 	// swap endianness
 	p.OpCode = code.OpCode(swapUint16(uint16(p.OpCode)))
 	if p.OpCode != code.OpPollReply {
-- 
2.43.0


From 1769f5061f658cbae4be16ddacb8077f89dab37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:25 +0000
Subject: [PATCH 07/32] fix: disabling a flag clears its bit

s | (0 << n) is s: With...(false) left a flag set.
---
 packet/code/goodinput.go  | 12 ++++++------
 packet/code/goodoutput.go | 16 ++++++++--------
 packet/code/porttype.go   |  4 ++--
 packet/code/status1.go    |  6 +++---
 packet/code/status2.go    | 12 ++++++------
 packet/code/swmacro.go    | 16 ++++++++--------
 packet/code/swremote.go   | 16 ++++++++--------
 packet/code/talktome.go   |  8 ++++----
 8 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/packet/code/goodinput.go b/packet/code/goodinput.go
index 85af466..499cb5d 100644
--- a/packet/code/goodinput.go
+++ b/packet/code/goodinput.go
@@ -8,7 +8,7 @@ func (s GoodInput) WithReceive(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Receive indicates if Receive errors detected
@@ -21,7 +21,7 @@ func (s GoodInput) WithDisabled(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Disabled indicates Input is disabled
@@ -34,7 +34,7 @@ func (s GoodInput) WithText(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -47,7 +47,7 @@ func (s GoodInput) WithSIP(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -60,7 +60,7 @@ func (s GoodInput) WithTest(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -73,7 +73,7 @@ func (s GoodInput) WithData(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data received
diff --git a/packet/code/goodoutput.go b/packet/code/goodoutput.go
index 0b7841e..da15831 100644
--- a/packet/code/goodoutput.go
+++ b/packet/code/goodoutput.go
@@ -8,7 +8,7 @@ func (s GoodOutput) WithACN(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // ACN indicates Output is selected to transmit sACN
@@ -21,7 +21,7 @@ func (s GoodOutput) WithLTP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // LTP indicates Merge Mode is LTP
@@ -34,7 +34,7 @@ func (s GoodOutput) WithOutput(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Output indicates DMX output short detected on power up
@@ -47,7 +47,7 @@ func (s GoodOutput) WithMerging(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Merging indicates Output is merging ArtNet data
@@ -60,7 +60,7 @@ func (s GoodOutput) WithText(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -73,7 +73,7 @@ func (s GoodOutput) WithSIP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -86,7 +86,7 @@ func (s GoodOutput) WithTest(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -99,7 +99,7 @@ func (s GoodOutput) WithData(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data transmitted
diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 6b42aff..8b1924b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -10,7 +10,7 @@ func (s PortType) WithInput(enable bool) PortType {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Input indicates channel can input from the Art-Net Network
@@ -23,7 +23,7 @@ func (s PortType) WithOutput(enable bool) PortType {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Output indicates channel can output onto the Art-Net Network
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 32c08ca..6144e67 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -10,7 +10,7 @@ func (s Status1) WithUBEA(enable bool) Status1 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // UBEA returns the status of the bit 0
@@ -25,7 +25,7 @@ func (s Status1) WithRDM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // RDM returns the status of the bit 1
@@ -41,7 +41,7 @@ func (s Status1) WithBootROM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // BootROM returns the status of the bit 2
diff --git a/packet/code/status2.go b/packet/code/status2.go
index 35220c5..d33a8b4 100644
--- a/packet/code/status2.go
+++ b/packet/code/status2.go
@@ -8,7 +8,7 @@ func (s Status2) WithBrowser(enable bool) Status2 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Browser indicates if product supports web browser configuration
@@ -21,7 +21,7 @@ func (s Status2) WithDHCP(enable bool) Status2 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // DHCP indicates if product IP is DHCP configured
@@ -34,7 +34,7 @@ func (s Status2) WithDHCPCapable(enable bool) Status2 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // DHCPCapable indicates if product is capable of DHCP
@@ -47,7 +47,7 @@ func (s Status2) WithPort15(enable bool) Status2 {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Port15 indicates if product supports 15 bit Port-Address (Art-Net 3 or 4)
@@ -60,7 +60,7 @@ func (s Status2) WithSwitch(enable bool) Status2 {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Switch indicates if product is able to switch between Art-Net and sACN
@@ -73,7 +73,7 @@ func (s Status2) WithSquawk(enable bool) Status2 {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Squawk indicates if product is squawking
diff --git a/packet/code/swmacro.go b/packet/code/swmacro.go
index 4e47a95..93c3027 100644
--- a/packet/code/swmacro.go
+++ b/packet/code/swmacro.go
@@ -12,7 +12,7 @@ func (s SwMacro) WithMacro1(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Macro1 indicates Macro 1 active
@@ -25,7 +25,7 @@ func (s SwMacro) WithMacro2(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Macro2 indicates Macro 2 active
@@ -38,7 +38,7 @@ func (s SwMacro) WithMacro3(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Macro3 indicates Macro 3 active
@@ -51,7 +51,7 @@ func (s SwMacro) WithMacro4(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Macro4 indicates Macro 4 active
@@ -64,7 +64,7 @@ func (s SwMacro) WithMacro5(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Macro5 indicates Macro 5 active
@@ -77,7 +77,7 @@ func (s SwMacro) WithMacro6(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Macro6 indicates Macro 6 active
@@ -90,7 +90,7 @@ func (s SwMacro) WithMacro7(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Macro7 indicates Macro 7 active
@@ -103,7 +103,7 @@ func (s SwMacro) WithMacro8(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Macro8 indicates Macro 8 active
diff --git a/packet/code/swremote.go b/packet/code/swremote.go
index 801ad95..d504604 100644
--- a/packet/code/swremote.go
+++ b/packet/code/swremote.go
@@ -12,7 +12,7 @@ func (s SwRemote) WithRemote1(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Remote1 indicates Remote 1 active
@@ -25,7 +25,7 @@ func (s SwRemote) WithRemote2(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Remote2 indicates Remote 2 active
@@ -38,7 +38,7 @@ func (s SwRemote) WithRemote3(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Remote3 indicates Remote 3 active
@@ -51,7 +51,7 @@ func (s SwRemote) WithRemote4(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Remote4 indicates Remote 4 active
@@ -64,7 +64,7 @@ func (s SwRemote) WithRemote5(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Remote5 indicates Remote 5 active
@@ -77,7 +77,7 @@ func (s SwRemote) WithRemote6(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Remote6 indicates Remote 6 active
@@ -90,7 +90,7 @@ func (s SwRemote) WithRemote7(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Remote7 indicates Remote 7 active
@@ -103,7 +103,7 @@ func (s SwRemote) WithRemote8(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Remote8 indicates Remote 8 active
diff --git a/packet/code/talktome.go b/packet/code/talktome.go
index fa95164..27ecc34 100644
--- a/packet/code/talktome.go
+++ b/packet/code/talktome.go
@@ -10,7 +10,7 @@ func (t TalkToMe) WithReplyOnChange(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 1)
 	}
-	return t | (0 << 1)
+	return t &^ (1 << 1)
 }
 
 // ReplyOnChange returns the status of the bit 1
@@ -23,7 +23,7 @@ func (t TalkToMe) WithDiagnostics(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 2)
 	}
-	return t | (0 << 2)
+	return t &^ (1 << 2)
 }
 
 // Diagnostics returns the stats of the bit 2
@@ -36,7 +36,7 @@ func (t TalkToMe) WithDiagUnicast(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 3)
 	}
-	return t | (0 << 3)
+	return t &^ (1 << 3)
 }
 
 // DiagUnicast returns the stats of the bit 3
@@ -49,7 +49,7 @@ func (t TalkToMe) WithVLC(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 4)
 	}
-	return t | (0 << 4)
+	return t &^ (1 << 4)
 }
 
 // VLC returns the stats of the bit 4
-- 
2.43.0


From d55ed8cf013f967185b1d883c8e5783cef653f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:26 +0000
Subject: [PATCH 08/32] fix: setting a multi-bit status or port type field
 replaces its old value

The new value was or-ed onto the old one, so that for example changing front
to net gave unused.
---
 packet/code/porttype.go | 12 ++++++------
 packet/code/status1.go  | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 8b1924b..3a8993b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -36,17 +36,17 @@ func (s PortType) Output() bool {
 func (s PortType) WithType(v string) PortType {
 	switch v {
 	case "DMX512":
-		return s | 0x00
+		return s&^0x1f | 0x00
 	case "MIDI":
-		return s | 0x01
+		return s&^0x1f | 0x01
 	case "Avab":
-		return s | 0x02
+		return s&^0x1f | 0x02
 	case "Colortran CMX":
-		return s | 0x03
+		return s&^0x1f | 0x03
 	case "ADB 62.5":
-		return s | 0x04
+		return s&^0x1f | 0x04
 	case "Art-Net":
-		return s | 0x05
+		return s&^0x1f | 0x05
 	}
 	return s
 }
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 6144e67..cd27a0a 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -57,13 +57,13 @@ func (s Status1) BootROM() bool {
 func (s Status1) WithPortAddr(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 4)
+		return s&^(3<<4) | (0 << 4)
 	case "front":
-		return s | (1 << 4)
+		return s&^(3<<4) | (1 << 4)
 	case "net":
-		return s | (2 << 4)
+		return s&^(3<<4) | (2 << 4)
 	case "unused":
-		return s | (3 << 4)
+		return s&^(3<<4) | (3 << 4)
 	}
 	return s
 }
@@ -95,13 +95,13 @@ func (s Status1) PortAddr() string {
 func (s Status1) WithIndicator(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 6)
+		return s&^(3<<6) | (0 << 6)
 	case "locate":
-		return s | (1 << 6)
+		return s&^(3<<6) | (1 << 6)
 	case "mute":
-		return s | (2 << 6)
+		return s&^(3<<6) | (2 << 6)
 	case "normal":
-		return s | (3 << 6)
+		return s&^(3<<6) | (3 << 6)
 	}
 	return s
 }
-- 
2.43.0


From 2eb543968848758498857aa8704a23f721d68d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:27 +0000
Subject: [PATCH 09/32] fix: read the Status1 multi-bit fields from the bits
 they are in

PortAddr is bits 5-4 and Indicator bits 7-6, as the setters have it, and the
state of 2 is called mute there and in the documentation.
---
 packet/code/status1.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packet/code/status1.go b/packet/code/status1.go
index cd27a0a..64b5f01 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -74,7 +74,7 @@ func (s Status1) WithPortAddr(v string) Status1 {
 // "net":     All or part of Port-Address programmed by networkor Web browser.
 // "unused":  Not used.
 func (s Status1) PortAddr() string {
-	switch (s & (8 + 16)) >> 4 {
+	switch (s & (16 + 32)) >> 4 {
 	case 0:
 		return "unknown"
 	case 1:
@@ -112,13 +112,13 @@ func (s Status1) WithIndicator(v string) Status1 {
 // "mute":    Indicators in Mute Mode.
 // "normal":  Indicators in Normal Mode.
 func (s Status1) Indicator() string {
-	switch (s & (32 + 64)) >> 6 {
+	switch (s & (64 + 128)) >> 6 {
 	case 0:
 		return "unknown"
 	case 1:
 		return "locate"
 	case 2:
-		return "mutenet"
+		return "mute"
 	case 3:
 		return "normal"
 	}
-- 
2.43.0


From 4483f5de805de30f01412ee5944440e16d340f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:43 +0000
Subject: [PATCH 10/32] fix: SubSwitch is bits 7-4 of the Port-Address

It is encoded in the low nibble of the ArtPollReply field. Using it unshifted
merged the sub-net and universe nibbles into a wrong universe address.
---
 config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index c9bcb3e..415ba4d 100644
--- a/config.go
+++ b/config.go
@@ -77,7 +77,7 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 		Status1:     c.Status1,
 		Status2:     c.Status2,
 		NetSwitch:   c.BaseAddress.Net,
-		SubSwitch:   c.BaseAddress.SubUni,
+		SubSwitch:   c.BaseAddress.SubUni >> 4,
 		NumPorts:    c.NumberOfPorts(),
 		PortTypes:   c.PortTypes(),
 	}
@@ -171,7 +171,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 		Status2:      p.Status2,
 		BaseAddress: Address{
 			Net:    p.NetSwitch,
-			SubUni: p.SubSwitch,
+			SubUni: p.SubSwitch << 4,
 		},
 	}
 
-- 
2.43.0


From f08b4c9cefaaf0c47605abe53ba6fafc7ddc6094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:44 +0000
Subject: [PATCH 11/32] fix: announce the universe and status of the configured
 ports

Without SwIn and SwOut every port of a node was announced as universe 0, so a
controller could not reach the configured universes.
---
 config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/config.go b/config.go
index 415ba4d..6d66230 100644
--- a/config.go
+++ b/config.go
@@ -90,6 +90,15 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
 
+	for i := 0; i < 4 && i < len(c.InputPorts); i++ {
+		p.GoodInput[i] = c.InputPorts[i].Status
+		p.SwIn[i] = c.InputPorts[i].Address.SubUni & 0x0f
+	}
+	for i := 0; i < 4 && i < len(c.OutputPorts); i++ {
+		p.GoodOutput[i] = c.OutputPorts[i].Status
+		p.SwOut[i] = c.OutputPorts[i].Address.SubUni & 0x0f
+	}
+
 	return p
 }
 
-- 
2.43.0


From bda06ec9e6cf8af0a1acba7720531172f7a397fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:44 +0000
Subject: [PATCH 12/32] fix: keep the announced node names zero terminated

Their maximum lengths are 17 and 63 characters.
---
 config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 6d66230..196531b 100644
--- a/config.go
+++ b/config.go
@@ -84,8 +84,8 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 
 	copy(p.IPAddress[0:4], c.IP.To4())
 	copy(p.ESTAmanufacturer[0:2], c.Manufacturer)
-	copy(p.ShortName[0:18], c.Name)
-	copy(p.LongName[0:64], c.Description)
+	copy(p.ShortName[0:17], c.Name)
+	copy(p.LongName[0:63], c.Description)
 	copy(p.NodeReport[0:64], c.Report)
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
-- 
2.43.0


From a2b5de654454f42f7ad8d8e24f4c3e9a82d2c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:54 +0000
Subject: [PATCH 13/32] fix: a failed read no longer crashes the node

The source address is nil when reading fails; look at the error first.
---
 node.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index 6766063..05c00da 100644
--- a/node.go
+++ b/node.go
@@ -218,12 +218,6 @@ func (n *Node) recvLoop() {
 				return
 			}
 
-			if n.localAddr.IP.Equal(from.IP) {
-				// this was sent by me, so we ignore it
-				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
-				continue
-			}
-
 			if err != nil {
 				if err == io.EOF {
 					return
@@ -233,6 +227,12 @@ func (n *Node) recvLoop() {
 				continue
 			}
 
+			if n.localAddr.IP.Equal(from.IP) {
+				// this was sent by me, so we ignore it
+				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
+				continue
+			}
+
 			n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("received packet")
 			payload := netPayload{
 				address: *from,
-- 
2.43.0


From 52b7f889d1380f9aa1ca480049387d55183aa36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:27 +0000
Subject: [PATCH 14/32] fix: stopping a node that does not run is harmless, a
 failed start leaves it stopped

Stop panicked before the first start and when called twice, and a start whose
listen failed left the node marked as running.
---
 node.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/node.go b/node.go
index 05c00da..b57199a 100644
--- a/node.go
+++ b/node.go
@@ -96,8 +96,11 @@ func (n *Node) Connection() *net.UDPConn {
 // Stop will stop all running routines and close the network connection
 func (n *Node) Stop() {
 	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
+	if n.shutdown {
+		return
+	}
 	n.shutdown = true
-	n.shutdownLock.Unlock()
 	close(n.shutdownCh)
 	if n.conn != nil {
 		if err := n.conn.Close(); err != nil {
@@ -119,20 +122,23 @@ func (n *Node) Start() error {
 	}
 	n.log.With(Fields{"ip": n.Config.IP.String(), "type": n.Config.Type.String()}).Debug("node started")
 
-	n.sendCh = make(chan netPayload, 10)
-	n.recvCh = make(chan netPayload, 10)
-	n.pollCh = make(chan packet.ArtPollPacket, 10)
-	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
-	n.shutdownCh = make(chan struct{})
-	n.shutdown = false
-
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
 		n.shutdownErr = fmt.Errorf("error net.ListenPacket: %s", err)
 		n.log.With(Fields{"error": err}).Error("error net.ListenPacket")
 		return err
 	}
+	n.sendCh = make(chan netPayload, 10)
+	n.recvCh = make(chan netPayload, 10)
+	n.pollCh = make(chan packet.ArtPollPacket, 10)
+	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
+
+	n.shutdownLock.Lock()
 	n.conn = c.(*net.UDPConn)
+	n.shutdownCh = make(chan struct{})
+	n.shutdown = false
+	n.shutdownErr = nil
+	n.shutdownLock.Unlock()
 
 	go n.pollReplyLoop()
 	go n.recvLoop()
-- 
2.43.0


From 6f2f2dee3160369a1dfdc20e97fc48292dc64efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:28 +0000
Subject: [PATCH 15/32] fix: stopping a node ends every goroutine waiting on a
 full queue

---
 node.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/node.go b/node.go
index b57199a..ad5cea2 100644
--- a/node.go
+++ b/node.go
@@ -171,10 +171,10 @@ func (n *Node) pollReplyLoop() {
 			// reply with pollReply
 			n.log.With(nil).Debug("sending ArtPollReply")
 
-			n.sendCh <- netPayload{
+			n.send(netPayload{
 				address: n.broadcastAddr,
 				data:    me,
-			}
+			})
 
 			// TODO: if we are asked to send changes regularly, set the Ticker here
 
@@ -184,6 +184,14 @@ func (n *Node) pollReplyLoop() {
 	}
 }
 
+// send hands a payload to the sendLoop, unless the node is shut down
+func (n *Node) send(payload netPayload) {
+	select {
+	case n.sendCh <- payload:
+	case <-n.shutdownCh:
+	}
+}
+
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
 	// loop until shutdown
@@ -246,7 +254,11 @@ func (n *Node) recvLoop() {
 				data:    make([]byte, num),
 			}
 			copy(payload.data, b)
-			n.recvCh <- payload
+			select {
+			case n.recvCh <- payload:
+			case <-n.shutdownCh:
+				return
+			}
 		}
 	}()
 
@@ -294,7 +306,10 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 		return
 	}
 
-	n.pollCh <- *poll
+	select {
+	case n.pollCh <- *poll:
+	case <-n.shutdownCh:
+	}
 }
 
 func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
@@ -306,7 +321,10 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
-		n.pollReplyCh <- *pollReply
+		select {
+		case n.pollReplyCh <- *pollReply:
+		case <-n.shutdownCh:
+		}
 	}
 }
 
-- 
2.43.0


From f59dba42ced7210808a816382bd4fe8c30229ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:58 +0000
Subject: [PATCH 16/32] fix: Stop waits for the node's loops

A start right after a stop could leave the reader of the previous run behind,
which then took datagrams from the new one.
---
 node.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/node.go b/node.go
index ad5cea2..57f93e0 100644
--- a/node.go
+++ b/node.go
@@ -33,6 +33,8 @@ type Node struct {
 	shutdown     bool
 	shutdownErr  error
 	shutdownLock sync.Mutex
+	// loops counts the running loops
+	loops sync.WaitGroup
 
 	// pollCh will receive ArtPoll packets
 	pollCh chan packet.ArtPollPacket
@@ -96,17 +98,19 @@ func (n *Node) Connection() *net.UDPConn {
 // Stop will stop all running routines and close the network connection
 func (n *Node) Stop() {
 	n.shutdownLock.Lock()
-	defer n.shutdownLock.Unlock()
-	if n.shutdown {
-		return
-	}
-	n.shutdown = true
-	close(n.shutdownCh)
-	if n.conn != nil {
-		if err := n.conn.Close(); err != nil {
-			n.log.Printf("failed to close read socket: %v")
+	if !n.shutdown {
+		n.shutdown = true
+		close(n.shutdownCh)
+		if n.conn != nil {
+			if err := n.conn.Close(); err != nil {
+				n.log.Printf("failed to close read socket: %v")
+			}
 		}
 	}
+	n.shutdownLock.Unlock()
+
+	// a later start must not find a loop of this run
+	n.loops.Wait()
 }
 
 func (n *Node) isShutdown() bool {
@@ -140,6 +144,7 @@ func (n *Node) Start() error {
 	n.shutdownErr = nil
 	n.shutdownLock.Unlock()
 
+	n.loops.Add(4)
 	go n.pollReplyLoop()
 	go n.recvLoop()
 	go n.sendLoop()
@@ -150,6 +155,8 @@ func (n *Node) Start() error {
 // pollReplyLoop loops to reply to ArtPoll packets
 // when a controller asks for continuous updates, we do that using a ticker
 func (n *Node) pollReplyLoop() {
+	defer n.loops.Done()
+
 	var timer time.Ticker
 
 	// create an ArtPollReply packet to send out in response to an ArtPoll packet
@@ -194,6 +201,8 @@ func (n *Node) send(payload netPayload) {
 
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
+	defer n.loops.Done()
+
 	// loop until shutdown
 	for {
 		select {
@@ -222,9 +231,13 @@ func (n *Node) sendLoop() {
 // due to the nature of broadcasting, we see our own sent
 // packets to, but we ignore them
 func (n *Node) recvLoop() {
+	defer n.loops.Done()
+
 	// start a routine that will read data from n.conn
 	// and (if not shutdown), send to the recvCh
 	go func() {
+		defer n.loops.Done()
+
 		b := make([]byte, 4096)
 		for {
 			num, from, err := n.conn.ReadFromUDP(b)
-- 
2.43.0


From 603051aac2b01b03631b4fd9a4cbc50478d32e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:58 +0000
Subject: [PATCH 17/32] fix: look up the callback before the goroutine of a
 packet starts

A packet still under way after Stop read the callbacks while they could be
changed again by RegisterCallback.
---
 node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 57f93e0..f0e545b 100644
--- a/node.go
+++ b/node.go
@@ -293,7 +293,7 @@ func (n *Node) recvLoop() {
 			// opcode which we can now extract and handle
 			// the packet by calling the corresponding
 			// callback
-			go n.handlePacket(p)
+			n.handlePacket(p)
 
 		case <-n.shutdownCh:
 			return
@@ -309,7 +309,7 @@ func (n *Node) handlePacket(p packet.ArtNetPacket) {
 		return
 	}
 
-	callback(p)
+	go callback(p)
 }
 
 func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
-- 
2.43.0


From 3abe1e564365be34ee0ec7fbc81f17b30c9ec9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 18/32] fix: stopping a controller that does not run is
 harmless

It panicked before the first start, after a failed start and when called twice.
---
 controller.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/controller.go b/controller.go
index b51f94c..5be35ac 100644
--- a/controller.go
+++ b/controller.go
@@ -92,6 +92,9 @@ type Controller struct {
 	broadcastAddr net.UDPAddr
 
 	shutdownCh chan struct{}
+	// running is set from a successful start until the next stop
+	running  bool
+	stopLock sync.Mutex
 
 	maxFPS int
 	log    Logger
@@ -118,15 +121,22 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
-	c.OutputAddress = make(map[Address]*ControlledNode)
-	c.InputAddress = make(map[Address]*ControlledNode)
-	c.shutdownCh = make(chan struct{})
 	c.cNode.log = c.log.With(Fields{"type": "Node"})
 	c.log = c.log.With(Fields{"type": "Controller"})
 	if err := c.cNode.Start(); err != nil {
 		return fmt.Errorf("failed to start controller node: %v", err)
 	}
 
+	c.stopLock.Lock()
+	defer c.stopLock.Unlock()
+	c.running = true
+
+	c.nodeLock.Lock()
+	c.OutputAddress = make(map[Address]*ControlledNode)
+	c.InputAddress = make(map[Address]*ControlledNode)
+	c.nodeLock.Unlock()
+
+	c.shutdownCh = make(chan struct{})
 	c.pollTicker = time.NewTicker(pollInterval)
 	c.gcTicker = time.NewTicker(pollInterval)
 
@@ -137,6 +147,13 @@ func (c *Controller) Start() error {
 
 // Stop will stop this controller
 func (c *Controller) Stop() {
+	c.stopLock.Lock()
+	defer c.stopLock.Unlock()
+	if !c.running {
+		return
+	}
+	c.running = false
+
 	c.pollTicker.Stop()
 	c.gcTicker.Stop()
 	c.cNode.Stop()
-- 
2.43.0


From 0886eb267521a4ae715effa3f466a95ac56ed043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 19/32] fix: stopping a controller ends its loops also when the
 send queue is full

They waited on the queues of the stopped node for good, one of them holding
the lock that SendDMXToAddress needs.
---
 controller.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/controller.go b/controller.go
index 5be35ac..2d3b51a 100644
--- a/controller.go
+++ b/controller.go
@@ -180,22 +180,22 @@ func (c *Controller) pollLoop() {
 	}
 
 	// send ArtPollPacket
-	c.cNode.sendCh <- netPayload{
+	c.cNode.send(netPayload{
 		address: c.broadcastAddr,
 		data:    b,
-	}
-	c.cNode.pollCh <- packet.ArtPollPacket{}
+	})
+	c.cNode.handlePacketPoll(&packet.ArtPollPacket{})
 
 	// loop until shutdown
 	for {
 		select {
 		case <-c.pollTicker.C:
 			// send ArtPollPacket
-			c.cNode.sendCh <- netPayload{
+			c.cNode.send(netPayload{
 				address: c.broadcastAddr,
 				data:    b,
-			}
-			c.cNode.pollCh <- packet.ArtPollPacket{}
+			})
+			c.cNode.handlePacketPoll(&packet.ArtPollPacket{})
 
 		case <-c.gcTicker.C:
 			// clean up old nodes
@@ -264,10 +264,10 @@ func (c *Controller) dmxUpdateLoop() {
 		node.DMXBuffer[address].LastUpdate = now
 		node.DMXBuffer[address].Stale = false
 
-		c.cNode.sendCh <- netPayload{
+		c.cNode.send(netPayload{
 			address: node.UDPAddress,
 			data:    b,
-		}
+		})
 		return nil
 	}
 
-- 
2.43.0


From dbc29f8675533f36e5fa784e37f282cfa83064ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 20/32] fix: a restarted controller starts afresh

Stop waits for the controller's loops, and a start forgets the nodes of the
previous run, whose universes were not routed any more.
---
 controller.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/controller.go b/controller.go
index 2d3b51a..8270481 100644
--- a/controller.go
+++ b/controller.go
@@ -95,6 +95,8 @@ type Controller struct {
 	// running is set from a successful start until the next stop
 	running  bool
 	stopLock sync.Mutex
+	// loops counts the running loops
+	loops sync.WaitGroup
 
 	maxFPS int
 	log    Logger
@@ -132,6 +134,7 @@ func (c *Controller) Start() error {
 	c.running = true
 
 	c.nodeLock.Lock()
+	c.Nodes = nil
 	c.OutputAddress = make(map[Address]*ControlledNode)
 	c.InputAddress = make(map[Address]*ControlledNode)
 	c.nodeLock.Unlock()
@@ -140,6 +143,7 @@ func (c *Controller) Start() error {
 	c.pollTicker = time.NewTicker(pollInterval)
 	c.gcTicker = time.NewTicker(pollInterval)
 
+	c.loops.Add(2)
 	go c.pollLoop()
 	go c.dmxUpdateLoop()
 	return c.cNode.shutdownErr
@@ -163,10 +167,15 @@ func (c *Controller) Stop() {
 	}
 
 	close(c.shutdownCh)
+
+	// a later start must not find a loop of this run
+	c.loops.Wait()
 }
 
 // pollLoop will routinely poll for new nodes
 func (c *Controller) pollLoop() {
+	defer c.loops.Done()
+
 	artPoll := &packet.ArtPollPacket{
 		TalkToMe: new(code.TalkToMe).WithReplyOnChange(true),
 		Priority: code.DpAll,
@@ -250,6 +259,8 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 
 // dmxUpdateLoop will periodically update nodes until shutdown
 func (c *Controller) dmxUpdateLoop() {
+	defer c.loops.Done()
+
 	fpsInterval := time.Duration(c.maxFPS)
 	ticker := time.NewTicker(time.Second / fpsInterval)
 
-- 
2.43.0


From 115b3abba2b644c1f07b30bf26d710cd36800344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:53 +0000
Subject: [PATCH 21/32] fix: never send the DMX sequence number 0

---
 controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller.go b/controller.go
index 8270481..b531f28 100644
--- a/controller.go
+++ b/controller.go
@@ -66,7 +66,11 @@ func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {
 		return nil, fmt.Errorf("unknown address for controlled node")
 	}
 
+	// 0 would disable resequencing at the node
 	cn.Sequence++
+	if cn.Sequence == 0 {
+		cn.Sequence = 1
+	}
 	p := &packet.ArtDMXPacket{
 		Sequence: cn.Sequence,
 		SubUni:   address.SubUni,
-- 
2.43.0


From c379dd021d73fd927f0d0c4c56b1cea8f8566d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:54 +0000
Subject: [PATCH 22/32] fix: a known node's DMX buffers follow its announced
 universes

DMX sent right after a new universe was announced got lost, and a universe
announced again after it was withdrawn came back with its old data.
---
 controller.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/controller.go b/controller.go
index b531f28..9598535 100644
--- a/controller.go
+++ b/controller.go
@@ -341,6 +341,15 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			}
 			c.Nodes[i].Node = cfg
 			c.Nodes[i].LastSeen = time.Now()
+			// keep the buffers of the universes it still has, new ones start empty
+			buf := make(map[Address]*dmxBuffer)
+			for _, port := range cfg.OutputPorts {
+				buf[port.Address] = &dmxBuffer{}
+				if old, ok := c.Nodes[i].DMXBuffer[port.Address]; ok {
+					buf[port.Address] = old
+				}
+			}
+			c.Nodes[i].DMXBuffer = buf
 			// add references to this node to the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
 				c.OutputAddress[port.Address] = c.Nodes[i]
-- 
2.43.0


From a7f5709d32db7b5ce7aa487768613756c0553c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:54 +0000
Subject: [PATCH 23/32] fix: updating or expiring a node keeps universes
 another node took over

---
 controller.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/controller.go b/controller.go
index 9598535..f8b5193 100644
--- a/controller.go
+++ b/controller.go
@@ -334,10 +334,14 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			c.log.With(Fields{"node": cfg.Name, "ip": cfg.IP.String()}).Debug("updated node")
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-				delete(c.OutputAddress, port.Address)
+				if c.OutputAddress[port.Address] == c.Nodes[i] {
+					delete(c.OutputAddress, port.Address)
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-				delete(c.InputAddress, port.Address)
+				if c.InputAddress[port.Address] == c.Nodes[i] {
+					delete(c.InputAddress, port.Address)
+				}
 			}
 			c.Nodes[i].Node = cfg
 			c.Nodes[i].LastSeen = time.Now()
@@ -399,10 +403,14 @@ func (c *Controller) deleteNode(node NodeConfig) error {
 			// node found, remove it from the list
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-				delete(c.OutputAddress, port.Address)
+				if c.OutputAddress[port.Address] == c.Nodes[i] {
+					delete(c.OutputAddress, port.Address)
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-				delete(c.InputAddress, port.Address)
+				if c.InputAddress[port.Address] == c.Nodes[i] {
+					delete(c.InputAddress, port.Address)
+				}
 			}
 			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
 		}
@@ -429,10 +437,14 @@ start:
 
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-				delete(c.OutputAddress, port.Address)
+				if c.OutputAddress[port.Address] == c.Nodes[i] {
+					delete(c.OutputAddress, port.Address)
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-				delete(c.InputAddress, port.Address)
+				if c.InputAddress[port.Address] == c.Nodes[i] {
+					delete(c.InputAddress, port.Address)
+				}
 			}
 			// remove node
 			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
-- 
2.43.0


From b2d2adfa0ffe725bd21c378535de6fe477cbd37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:55 +0000
Subject: [PATCH 24/32] fix: tell bound devices on one address apart

A gateway with more than four ports announces itself once per bind index;
every announcement replaced the universes of the previous one.
---
 controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller.go b/controller.go
index f8b5193..7681847 100644
--- a/controller.go
+++ b/controller.go
@@ -329,7 +329,7 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 	defer c.nodeLock.Unlock()
 
 	for i := range c.Nodes {
-		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {
+		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) && cfg.BindIndex == c.Nodes[i].Node.BindIndex {
 			// update this node, since we already know about it
 			c.log.With(Fields{"node": cfg.Name, "ip": cfg.IP.String()}).Debug("updated node")
 			// remove references to this node from the output map
@@ -399,7 +399,7 @@ func (c *Controller) deleteNode(node NodeConfig) error {
 	defer c.nodeLock.Unlock()
 
 	for i := range c.Nodes {
-		if bytes.Equal(node.IP, c.Nodes[i].Node.IP) {
+		if bytes.Equal(node.IP, c.Nodes[i].Node.IP) && node.BindIndex == c.Nodes[i].Node.BindIndex {
 			// node found, remove it from the list
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-- 
2.43.0


From 35adedc97edd373be8c31c7e2ecddd1c33d2e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:55 +0000
Subject: [PATCH 25/32] fix: refuse a frame rate that crashes the controller

---
 options.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/options.go b/options.go
index decc5ab..aa6cd95 100644
--- a/options.go
+++ b/options.go
@@ -1,7 +1,9 @@
 package artnet
 
 import (
+	"fmt"
 	"net"
+	"time"
 
 	"github.com/jsimonetti/go-artnet/packet"
 )
@@ -14,9 +16,13 @@ func (c *Controller) SetOption(option Option) error {
 	return option(c)
 }
 
-// MaxFPS sets the maximum amount of updates sent out per second
+// MaxFPS sets the maximum amount of updates sent out per second, which has to
+// be positive and at most one per nanosecond
 func MaxFPS(fps int) Option {
 	return func(c *Controller) error {
+		if fps < 1 || time.Duration(fps) > time.Second {
+			return fmt.Errorf("invalid maximum amount of updates per second: %d", fps)
+		}
 		c.maxFPS = fps
 		return nil
 	}
-- 
2.43.0


From 89b351fd63d143ac5758ca1b232fdfae84716cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:56 +0000
Subject: [PATCH 26/32] fix: a controller's poll replies use its broadcast
 address too

---
 options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options.go b/options.go
index aa6cd95..f3faf74 100644
--- a/options.go
+++ b/options.go
@@ -32,7 +32,7 @@ func MaxFPS(fps int) Option {
 func BroadcastAddr(addr net.UDPAddr) Option {
 	return func(c *Controller) error {
 		c.broadcastAddr = addr
-		return nil
+		return NodeBroadcastAddress(addr)(c.cNode)
 	}
 }
 
-- 
2.43.0


From ffa0f303e8c28c15be5b5712a9c9646cc9d97106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:09 +0000
Subject: [PATCH 27/32] fix: guard the callbacks of a node that is being
 stopped

A callback may register another one while Stop is under way: the node counts as
stopped then, but its receive loop may still be looking a callback up.
---
 node.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index f0e545b..79c615f 100644
--- a/node.go
+++ b/node.go
@@ -303,7 +303,9 @@ func (n *Node) recvLoop() {
 
 // handlePacket contains the logic for dealing with incoming packets
 func (n *Node) handlePacket(p packet.ArtNetPacket) {
+	n.shutdownLock.Lock()
 	callback, ok := n.callbacks[p.GetOpCode()]
+	n.shutdownLock.Unlock()
 	if !ok {
 		n.log.With(Fields{"packet": p}).Debugf("ignoring unhandled packet")
 		return
@@ -346,7 +348,9 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 // only register callbacks before the node has been started. Calling this
 // function multiple times replaces every previous callback.
 func (n *Node) RegisterCallback(opcode code.OpCode, callback NodeCallbackFn) {
-	if !n.isShutdown() {
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
+	if !n.shutdown {
 		n.log.With(Fields{"opcode": opcode}).Debugf("ignoring callback registration: node has already been started")
 		return
 	}
@@ -358,7 +362,9 @@ func (n *Node) RegisterCallback(opcode code.OpCode, callback NodeCallbackFn) {
 // deregistration function can only deregister callbacks before the node
 // has been started.
 func (n *Node) DeregisterCallback(opcode code.OpCode) {
-	if !n.isShutdown() {
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
+	if !n.shutdown {
 		n.log.With(Fields{"opcode": opcode}).Debugf("ignoring callback registration: node has already been started")
 		return
 	}
-- 
2.43.0


From 400d507df5b5bc1203345ed05df5002a1ed2e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 28/32] fix: let a handler outlast the run it belongs to

Handlers and callbacks run in goroutines of their own, so one of them may still
be about to use the node's channels or its connection when the node is started
again.
---
 node.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index 79c615f..ebe4863 100644
--- a/node.go
+++ b/node.go
@@ -92,6 +92,8 @@ func NewNode(name string, style code.StyleCode, ip net.IP, log Logger, opts ...N
 }
 
 func (n *Node) Connection() *net.UDPConn {
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
 	return n.conn
 }
 
@@ -132,12 +134,12 @@ func (n *Node) Start() error {
 		n.log.With(Fields{"error": err}).Error("error net.ListenPacket")
 		return err
 	}
+
+	n.shutdownLock.Lock()
 	n.sendCh = make(chan netPayload, 10)
 	n.recvCh = make(chan netPayload, 10)
 	n.pollCh = make(chan packet.ArtPollPacket, 10)
 	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
-
-	n.shutdownLock.Lock()
 	n.conn = c.(*net.UDPConn)
 	n.shutdownCh = make(chan struct{})
 	n.shutdown = false
@@ -321,9 +323,14 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 		return
 	}
 
+	// a handler may outlast the run it belongs to
+	n.shutdownLock.Lock()
+	pollCh, shutdownCh := n.pollCh, n.shutdownCh
+	n.shutdownLock.Unlock()
+
 	select {
-	case n.pollCh <- *poll:
-	case <-n.shutdownCh:
+	case pollCh <- *poll:
+	case <-shutdownCh:
 	}
 }
 
@@ -336,9 +343,14 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
+		// a handler may outlast the run it belongs to
+		n.shutdownLock.Lock()
+		pollReplyCh, shutdownCh := n.pollReplyCh, n.shutdownCh
+		n.shutdownLock.Unlock()
+
 		select {
-		case n.pollReplyCh <- *pollReply:
-		case <-n.shutdownCh:
+		case pollReplyCh <- *pollReply:
+		case <-shutdownCh:
 		}
 	}
 }
-- 
2.43.0


From debe05dd7949d40c91ec552ba74a5127b688f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 29/32] fix: do not change a controller's loggers while it is
 in use

Start replaced them, while other goroutines may be sending DMX through a
controller that is being restarted.
---
 controller.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/controller.go b/controller.go
index 7681847..005ae9a 100644
--- a/controller.go
+++ b/controller.go
@@ -113,7 +113,7 @@ type Controller struct {
 func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controller {
 	c := &Controller{
 		cNode:         NewNode(name, code.StController, ip, log),
-		log:           log,
+		log:           log.With(Fields{"type": "Controller"}),
 		maxFPS:        1000,
 		broadcastAddr: defaultBroadcastAddr,
 	}
@@ -127,8 +127,6 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
-	c.cNode.log = c.log.With(Fields{"type": "Node"})
-	c.log = c.log.With(Fields{"type": "Controller"})
 	if err := c.cNode.Start(); err != nil {
 		return fmt.Errorf("failed to start controller node: %v", err)
 	}
-- 
2.43.0


From 4d2a3ad1620782b4387e90b44d869fd9c6050e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 30/32] fix: a stop during a start neither races with it nor
 waits for its end

A node's Stop waited for whatever loops were running, also for those of a start
that came after it, and a controller's Start was not ordered with its Stop.
---
 controller.go |  5 +++--
 node.go       | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/controller.go b/controller.go
index 005ae9a..2e0e05b 100644
--- a/controller.go
+++ b/controller.go
@@ -127,12 +127,13 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
+	c.stopLock.Lock()
+	defer c.stopLock.Unlock()
+
 	if err := c.cNode.Start(); err != nil {
 		return fmt.Errorf("failed to start controller node: %v", err)
 	}
 
-	c.stopLock.Lock()
-	defer c.stopLock.Unlock()
 	c.running = true
 
 	c.nodeLock.Lock()
diff --git a/node.go b/node.go
index ebe4863..50365fd 100644
--- a/node.go
+++ b/node.go
@@ -33,8 +33,8 @@ type Node struct {
 	shutdown     bool
 	shutdownErr  error
 	shutdownLock sync.Mutex
-	// loops counts the running loops
-	loops sync.WaitGroup
+	// loops counts the running loops of the last start
+	loops *sync.WaitGroup
 
 	// pollCh will receive ArtPoll packets
 	pollCh chan packet.ArtPollPacket
@@ -109,10 +109,13 @@ func (n *Node) Stop() {
 			}
 		}
 	}
+	loops := n.loops
 	n.shutdownLock.Unlock()
 
 	// a later start must not find a loop of this run
-	n.loops.Wait()
+	if loops != nil {
+		loops.Wait()
+	}
 }
 
 func (n *Node) isShutdown() bool {
@@ -144,9 +147,10 @@ func (n *Node) Start() error {
 	n.shutdownCh = make(chan struct{})
 	n.shutdown = false
 	n.shutdownErr = nil
+	n.loops = new(sync.WaitGroup)
+	n.loops.Add(4)
 	n.shutdownLock.Unlock()
 
-	n.loops.Add(4)
 	go n.pollReplyLoop()
 	go n.recvLoop()
 	go n.sendLoop()
-- 
2.43.0


From d467616b12f1cb868b1e449f691dc2b35ba834f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:30 +0000
Subject: [PATCH 31/32] fix: a node does not collect poll replies nobody reads

---
 controller.go | 2 ++
 node.go       | 3 +--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller.go b/controller.go
index 2e0e05b..02a0db3 100644
--- a/controller.go
+++ b/controller.go
@@ -117,6 +117,8 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 		maxFPS:        1000,
 		broadcastAddr: defaultBroadcastAddr,
 	}
+	// only a controller reads the replies
+	c.cNode.callbacks[code.OpPollReply] = c.cNode.handlePacketPollReply
 
 	for _, opt := range opts {
 		c.SetOption(opt)
diff --git a/node.go b/node.go
index 50365fd..2870a3e 100644
--- a/node.go
+++ b/node.go
@@ -73,8 +73,7 @@ func NewNode(name string, style code.StyleCode, ip net.IP, log Logger, opts ...N
 
 	// initialize required node callbacks
 	n.callbacks = map[code.OpCode]NodeCallbackFn{
-		code.OpPoll:      n.handlePacketPoll,
-		code.OpPollReply: n.handlePacketPollReply,
+		code.OpPoll: n.handlePacketPoll,
 	}
 
 	if len(ip) < 1 {
-- 
2.43.0


From 6095761c43e3c05c0f352e11237054490be689cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:24 +0000
Subject: [PATCH 32/32] fix: only the low nibble of SwIn and SwOut is the
 universe

---
 config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 196531b..78f925d 100644
--- a/config.go
+++ b/config.go
@@ -189,7 +189,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.OutputPorts = append(nodeConfig.OutputPorts, OutputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodOutput[i],
@@ -199,7 +199,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.InputPorts = append(nodeConfig.InputPorts, InputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodInput[i],
-- 
2.43.0

