From 673759a4c9a226c1b7329998b988964137ce0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:07 +0000
Subject: [PATCH 01/41] fix: reject bits per component depths over 38 in image
 header box

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5f5ef9e..906c7cf 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -535,7 +535,7 @@ class BoxValidator:
         # 1. bPCDepth in range 1-38 (including limits)
         # 2. OR bPC equal 255 (indicating that components vary in bit depth)
         bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38
-        bitDepthIsVariable = 1 <= bPC <= 255
+        bitDepthIsVariable = bPC == 255
 
         if bPCDepthIsWithinAllowedRange or bitDepthIsVariable:
             bPCIsValid = True
-- 
2.43.0


From c934642c93359dd4df1f291bb578a8405f7f2ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 02/41] fix: base channel association test on channel
 association field

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 906c7cf..a2db5b3 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1099,7 +1099,7 @@ class BoxValidator:
             self.addCharacteristic("cAssoc", cAssoc)
 
             # Allowed range: 0 - 65535
-            self.testFor("cAssocIsValid", 0 <= cTyp <= 65535)
+            self.testFor("cAssocIsValid", 0 <= cAssoc <= 65535)
 
             if cTyp in [1, 2]:
                 alphaChannels.append([cTyp, cAssoc])
-- 
2.43.0


From 7c4a2bf013781d6abd76fdb4ed5f76dfc3aeaa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:09 +0000
Subject: [PATCH 03/41] fix: report resolution boxes with zero denominator
 instead of failing

---
 jpylyzer/boxvalidator.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index a2db5b3..cd2d242 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -229,6 +229,15 @@ class BoxValidator:
 
         return compressionRatio
 
+    def _calculateResolution(self, numerator, denominator, exponent):
+        """Compute grid resolution from its numerator, denominator and exponent."""
+        if denominator != 0:
+            return (numerator / denominator) * (10 ** exponent)
+
+        # Bogus value to prevent zero-division (which should not happen
+        # for valid files)
+        return -9999
+
     def _getBitValue(self, n, p, wordLength=8):
         """Get the bit value of denary (base 10) number n.
 
@@ -1213,11 +1222,13 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        vRescInPixelsPerMeter = self._calculateResolution(
+            vRcN, vRcD, vRcE)
         self.addCharacteristic(
             "vRescInPixelsPerMeter", round(vRescInPixelsPerMeter, 2))
 
-        hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        hRescInPixelsPerMeter = self._calculateResolution(
+            hRcN, hRcD, hRcE)
         self.addCharacteristic(
             "hRescInPixelsPerMeter", round(hRescInPixelsPerMeter, 2))
 
@@ -1272,11 +1283,13 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        vResdInPixelsPerMeter = self._calculateResolution(
+            vRdN, vRdD, vRdE)
         self.addCharacteristic(
             "vResdInPixelsPerMeter", round(vResdInPixelsPerMeter, 2))
 
-        hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        hResdInPixelsPerMeter = self._calculateResolution(
+            hRdN, hRdD, hRdE)
         self.addCharacteristic(
             "hResdInPixelsPerMeter", round(hResdInPixelsPerMeter, 2))
 
-- 
2.43.0


From cfbc82bae81490cd2b917cbe315bcb0ced7862fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:10 +0000
Subject: [PATCH 04/41] fix: do not hang on packet length list that ends in a
 continuation byte

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index cd2d242..7a756a2 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -276,7 +276,7 @@ class BoxValidator:
         while i < lpl and i < len(
                 self.boxContents):  # Don't over-read on bad lplt/lplm
             ipl_i_len = 1  # number of bytes making up the current ipl(t|m)_i
-            while bc.bytesToUnsignedChar(
+            while i + ipl_i_len < len(self.boxContents) and bc.bytesToUnsignedChar(
                     self.boxContents[i + ipl_i_len - 1:i + ipl_i_len]) & 0x80:
                 ipl_i_len += 1
 
-- 
2.43.0


From 68e1759da9e461f59cd1c2ee8587600edebbc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:12 +0000
Subject: [PATCH 05/41] fix: decode packet lengths of more than two bytes

---
 jpylyzer/boxvalidator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 7a756a2..cfcacf7 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -281,11 +281,11 @@ class BoxValidator:
                 ipl_i_len += 1
 
             # Join all the segments together
-            iplt_i = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
-            for ipl_index in range(1, ipl_i_len):
-                iplt_i = (iplt_i & 0x7F) << 7
+            iplt_i = 0
+            for ipl_index in range(ipl_i_len):
+                iplt_i <<= 7
                 iplt_i |= bc.bytesToUnsignedChar(
-                    self.boxContents[i + ipl_index:i + ipl_index + 1])
+                    self.boxContents[i + ipl_index:i + ipl_index + 1]) & 0x7F
 
             i += ipl_i_len
             iplt += ('{:0' + str(2 * ipl_i_len) + 'X},').format(iplt_i)
-- 
2.43.0


From 68a646d856b345de26b7e810f453ade7c2d5e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:13 +0000
Subject: [PATCH 06/41] fix: report UUID and UUID list boxes that are too short
 instead of failing

---
 jpylyzer/boxvalidator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index cfcacf7..ce67be0 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3323,6 +3323,10 @@ class BoxValidator:
         # Check box size, which must be greater than 16 bytes
         self.testFor("boxLengthIsValid", boxLength > 16)
 
+        if boxLength < 16:
+            # Box too short to contain a UUID
+            return
+
         # First 16 bytes contain UUID, convert to string of hex digits
         # in standard form
         boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
@@ -3423,6 +3427,9 @@ class BoxValidator:
         # Loop through all UUIDs
         offset = 2
         for _ in range(nU):
+            if offset + 16 > len(self.boxContents):
+                # Box too short to contain this UUID
+                break
             boxUUID = str(
                 uuid.UUID(bytes=self.boxContents[offset:offset + 16]))
             self.addCharacteristic("uuid", boxUUID)
-- 
2.43.0


From 8a0ee8a93fa6feb47486d5c0aecdc5d4fabd4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:14 +0000
Subject: [PATCH 07/41] fix: report capability for all values of rsiz

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index ce67be0..91593f0 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1820,6 +1820,8 @@ class BoxValidator:
                 capability = "Scalable 4K digital cinema profile"
             elif mainLevel == 7:
                 capability = "Long-term storage profile"
+            else:
+                capability = "Unknown (value not defined in ISO/IEC 15444-1)"
         elif profile == 1:
             capability = "Broadcast Contribution Single Tile Profile, Mainlevel " + \
                 str(mainLevel)
@@ -1842,7 +1844,7 @@ class BoxValidator:
             capability = "2k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 8:
-            rsiz = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
+            capability = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 9:
             capability = "8k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
-- 
2.43.0


From 36731cbdd71faac6ffa88c0115443bea3b84f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:16 +0000
Subject: [PATCH 08/41] fix: read QCC step sizes after, not from, quantization
 style byte

---
 jpylyzer/boxvalidator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 91593f0..192336c 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2553,6 +2553,8 @@ class BoxValidator:
         guardBits = (sqcc >> 5) & 7
         self.addCharacteristic("guardBits", guardBits)
 
+        offset += 1
+
         # Get number of decomposition levels from re-arrranged form of Eq A-5
         # (TODO: cross-check with info from COD, COC, see:
         # https://github.com/openpreserve/jpylyzer/issues/132)
-- 
2.43.0


From eeb8f97332caf6956ea158f15a106cd08cae4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:43 +0000
Subject: [PATCH 09/41] fix: read all profile values of PRF and CPF segments
 and test the last one

---
 jpylyzer/boxvalidator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 192336c..47e4d7b 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2886,7 +2886,8 @@ class BoxValidator:
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             PRFnum += pprf * 2 ** (16 * i)
-            if i == nopprfs:
+            offset += 2
+            if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
 
@@ -2902,7 +2903,7 @@ class BoxValidator:
 
         # lcpf  must be within range 4-65534
         if self.format in ['jph', 'jhc']:
-            self.testFor("lcpIsValid", 4 <= lcpf <= 65534)
+            self.testFor("lcpfIsValid", 4 <= lcpf <= 65534)
 
         # Number of pcpf entries
         nopcpfs = int((lcpf - 2) / 2)
@@ -2914,7 +2915,8 @@ class BoxValidator:
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             CPFnum += pcpf * 2 ** (16 * i)
-            if i == nopcpfs:
+            offset += 2
+            if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
                     self.testFor("pcpfIsValid", pcpf != 0)
-- 
2.43.0


From af03996129909ab2f0bc9dae1ae9ef33312bd089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:44 +0000
Subject: [PATCH 10/41] fix: report profile numbers of any size

---
 jpylyzer/etpatch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jpylyzer/etpatch.py b/jpylyzer/etpatch.py
index 741d15e..55001d6 100644
--- a/jpylyzer/etpatch.py
+++ b/jpylyzer/etpatch.py
@@ -19,6 +19,7 @@ TODO:
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #
 
+from decimal import Decimal
 import xml.etree.ElementTree as ET
 from . import byteconv as bc
 from . import config
@@ -122,6 +123,10 @@ class Element(ET.Element):
                 # Convert text field, depending on type
                 if textType == bytes:
                     textOut = bc.bytesToText(remappedValue)
+                elif textType == int:
+                    # Decimal is not subject to Python's limit on the number
+                    # of digits in integer to string conversion
+                    textOut = str(Decimal(remappedValue))
                 elif textType in numericTypes:
                     textOut = str(remappedValue)
                 else:
-- 
2.43.0


From f5dceeedeccf53992d0cf2b653a505c4d1de2f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:45 +0000
Subject: [PATCH 11/41] fix: use vertical offset in compression ratio of raw
 codestreams

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 47e4d7b..5557b83 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1742,7 +1742,7 @@ class BoxValidator:
                 # Calculate compression ratio
                 ssizDepthValues = characteristicsSIZ.findAllText('ssizDepth')
                 ysiz = characteristicsSIZ.findElementText('ysiz')
-                yOsiz = characteristicsSIZ.findElementText('xOsiz')
+                yOsiz = characteristicsSIZ.findElementText('yOsiz')
                 xsiz = characteristicsSIZ.findElementText('xsiz')
                 xOsiz = characteristicsSIZ.findElementText('xOsiz')
 
-- 
2.43.0


From 0d18358bd69465c10f81b8f638063e02c004f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:47 +0000
Subject: [PATCH 12/41] fix: read ICC profile flags and device attributes from
 least significant bits

---
 jpylyzer/boxvalidator.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5557b83..56b28e1 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -826,17 +826,17 @@ class BoxValidator:
         primaryPlatform = self.boxContents[40:44]
         self.addCharacteristic("primaryPlatform", primaryPlatform)
 
-        # Profile flags (bytes 44-47; only first byte read here as remaining bytes
+        # Profile flags (bytes 44-47; only last byte read here as remaining bytes
         # don't contain any meaningful information)
-        profileFlags = bc.bytesToUnsignedChar(self.boxContents[44:45])
+        profileFlags = bc.bytesToUnsignedChar(self.boxContents[47:48])
 
         # Embedded profile (0 if not embedded, 1 if embedded in file)
-        embeddedProfile = self._getBitValue(profileFlags, 1)
+        embeddedProfile = self._getBitValue(profileFlags, 8)
         self.addCharacteristic("embeddedProfile", embeddedProfile)
 
         # Profile cannot be used independently from embedded colour data
         # (1 if true, 0 if false)
-        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 2)
+        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 7)
         self.addCharacteristic(
             "profileCannotBeUsedIndependently",
             profileCannotBeUsedIndependently)
@@ -849,24 +849,24 @@ class BoxValidator:
         deviceModel = self.boxContents[52:56]
         self.addCharacteristic("deviceModel", deviceModel)
 
-        # Device attributes (bytes 56-63; only first byte read here as remaining bytes
+        # Device attributes (bytes 56-63; only last byte read here as remaining bytes
         # don't contain any meaningful information)
-        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[56:57])
+        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[63:64])
 
         # Transparency (1 = transparent; 0 = reflective)
-        transparency = self._getBitValue(deviceAttributes, 1)
+        transparency = self._getBitValue(deviceAttributes, 8)
         self.addCharacteristic("transparency", transparency)
 
         # Glossiness (1 = matte; 0 = glossy)
-        glossiness = self._getBitValue(deviceAttributes, 2)
+        glossiness = self._getBitValue(deviceAttributes, 7)
         self.addCharacteristic("glossiness", glossiness)
 
         # Media polarity (1 = negative; 0 = positive)
-        polarity = self._getBitValue(deviceAttributes, 3)
+        polarity = self._getBitValue(deviceAttributes, 6)
         self.addCharacteristic("polarity", polarity)
 
         # Media colour (1 = black & white; 0 = colour)
-        colour = self._getBitValue(deviceAttributes, 4)
+        colour = self._getBitValue(deviceAttributes, 5)
         self.addCharacteristic("colour", colour)
 
         # Rendering intent (bytes 64-67, only least-significant 2 bytes used)
-- 
2.43.0


From 7eb5bcae259132af18a990350aa56d63a24e380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:48 +0000
Subject: [PATCH 13/41] fix: read palette entries in the order in which they
 are stored

---
 jpylyzer/boxvalidator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 56b28e1..eef8ce8 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -974,6 +974,12 @@ class BoxValidator:
         # nPC within range 1-255
         self.testFor("nPCIsValid", 1 <= nPC <= 255)
 
+        # Number of bytes of cP values in each column
+        columnBytes = [
+            ((bc.bytesToUnsignedChar(self.boxContents[3 + i:4 + i]) & 127) + 8) // 8
+            for i in range(nPC)]
+        entryBytes = sum(columnBytes)
+
         # Following parameters are repeated for each column
         for i in range(nPC):
 
@@ -1001,8 +1007,9 @@ class BoxValidator:
             bDepthPadded = math.ceil(bDepth / 8) * 8
             bytesPadded = int(bDepthPadded / 8)
 
-            # Start offset of cP entries for this column
-            offset = nPC + 3 + i * (nE * bytesPadded)
+            # Start offset of first cP entry for this column. Table is
+            # organised by entry: values of all columns are stored together
+            offset = nPC + 3 + sum(columnBytes[:i])
 
             for _ in range(nE):
                 # Get bytes for this entry
@@ -1013,7 +1020,7 @@ class BoxValidator:
                 cP = bc.bytesToInteger(cPAsBytes)
                 self.addCharacteristic("cP", cP)
 
-                offset += bytesPadded
+                offset += entryBytes
 
     def validate_componentMappingBox(self):
         """Component mapping box (ISO/IEC 15444-1 Section I.5.3.5).
-- 
2.43.0


From 1fb1b233d795b529d28205d47185dc0a1b7477f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 14/41] fix: do not report palette entries beyond end of box

---
 jpylyzer/boxvalidator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index eef8ce8..f4a5298 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1012,6 +1012,10 @@ class BoxValidator:
             offset = nPC + 3 + sum(columnBytes[:i])
 
             for _ in range(nE):
+                if offset + bytesPadded > len(self.boxContents):
+                    # Don't over-read on bad nE/nPC
+                    break
+
                 # Get bytes for this entry
                 cPAsBytes = self.boxContents[offset:offset + bytesPadded]
 
-- 
2.43.0


From a81ded851cfbc7ccc872a2f397155aae650e685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:33 +0000
Subject: [PATCH 15/41] fix: never go back to earlier tile-parts after
 undecodable tile-part length

---
 jpylyzer/boxvalidator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index f4a5298..daf868c 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1697,12 +1697,13 @@ class BoxValidator:
                         # tilePartsPerTileFound (e.g. because the isot field is
                         # damaged)
                         break
-                    if offsetNext != offset:
+                    if offsetNext > offset:
                         offset = offsetNext
                     else:
                         # offsetNext same as offset: this happens if image only contains
                         # one single tile-part (psot=0), in which case we break out of
-                        # this loop
+                        # this loop. An offsetNext before offset follows from a psot that
+                        # couldn't be decoded
                         break
 
             # Length of tileIndices must equal numberOfTilesExpected
-- 
2.43.0


From 69a1402ba47e30dab8d109fab31e8f1754f1abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:34 +0000
Subject: [PATCH 16/41] fix: look for start of data marker within tile-part
 only

---
 jpylyzer/boxvalidator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index daf868c..2b64ba3 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3068,6 +3068,12 @@ class BoxValidator:
 
         offset = offsetNext
 
+        # End of this tile part
+        if tilePartLength > 0:
+            offsetEnd = self.startOffset + tilePartLength
+        else:
+            offsetEnd = len(self.boxContents)
+
         # Loop through remaining tile part marker segments; extract properties of
         # and validate COD, QCD and COM marker segments. Also test for presence of
         # SOD marker
@@ -3078,7 +3084,7 @@ class BoxValidator:
         # loop. Shouldn't happen anymore (although this may not be the most elegant way of handling
         # this)
 
-        while marker != b'\xff\x93' and offsetNext != -9999:
+        while marker != b'\xff\x93' and offsetNext != -9999 and offset < offsetEnd:
             marker, _, segContents, offsetNext = self._getMarkerSegment(
                 offset)
 
-- 
2.43.0


From 2cfa24a5fc9dcf6c7fb881f8253538aaf84d8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:35 +0000
Subject: [PATCH 17/41] fix: accept tiles with undefined number of tile-parts
 next to tiles that define it

---
 jpylyzer/boxvalidator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 2b64ba3..40717b6 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1710,8 +1710,12 @@ class BoxValidator:
             self.testFor("foundExpectedNumberOfTiles", len(
                 tileIndices) == numberOfTilesExpected)
 
-            # Found numbers of tile	parts per tile must match expected
+            # Found numbers of tile	parts per tile must match expected (leaving
+            # out tiles that don't define their number of tile-parts)
             if tilePartsPerTileExpected:
+                for tileIndex in tileIndices:
+                    if tileIndex not in tilePartsPerTileExpected:
+                        tilePartsPerTileFound.pop(tileIndex, None)
                 self.testFor("foundExpectedNumberOfTileParts",
                             tilePartsPerTileExpected == tilePartsPerTileFound)
 
-- 
2.43.0


From a19f19c52991efe77bd11e5a41eeb437602bb4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:37 +0000
Subject: [PATCH 18/41] fix: reject tile indices outside of tile grid

---
 jpylyzer/boxvalidator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 40717b6..e31bc35 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1706,9 +1706,11 @@ class BoxValidator:
                         # couldn't be decoded
                         break
 
-            # Length of tileIndices must equal numberOfTilesExpected
+            # Length of tileIndices must equal numberOfTilesExpected, and all
+            # indices must refer to expected tiles
             self.testFor("foundExpectedNumberOfTiles", len(
-                tileIndices) == numberOfTilesExpected)
+                tileIndices) == numberOfTilesExpected and all(
+                    tileIndex in tilePartsPerTileFound for tileIndex in tileIndices))
 
             # Found numbers of tile	parts per tile must match expected (leaving
             # out tiles that don't define their number of tile-parts)
-- 
2.43.0


From e96e58ab3c269a1b7276bde39e972b33563b70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:02 +0000
Subject: [PATCH 19/41] fix: do not treat format and private use characters as
 control characters

---
 jpylyzer/byteconv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/byteconv.py b/jpylyzer/byteconv.py
index e134b77..6a47c45 100644
--- a/jpylyzer/byteconv.py
+++ b/jpylyzer/byteconv.py
@@ -122,8 +122,11 @@ def removeControlCharacters(string):
     """
     # Tab, newline and return are part of C0, but are allowed in XML
     allowedChars = [u'\t', u'\n', u'\r']
-    return "".join(ch for ch in string if unicodedata.category(ch)[
-                   0] != "C" or ch in allowedChars)
+    # These are not control characters, but are not allowed in XML either
+    illegalChars = [u'\ufffe', u'\uffff']
+    return "".join(ch for ch in string if ch in allowedChars or
+                   (unicodedata.category(ch) not in ["Cc", "Cs"] and
+                    ch not in illegalChars))
 
 
 def removeNullTerminator(bytestring):
-- 
2.43.0


From 98adf72dfb139c8712c5518a54b5e410ae3658ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:03 +0000
Subject: [PATCH 20/41] fix: remove control characters from reported file names

---
 jpylyzer/jpylyzer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b95af40..c828038 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -42,6 +42,7 @@ from xml.dom import minidom
 from . import config
 from . import etpatch as ET
 from . import boxvalidator as bv
+from . import byteconv as bc
 from . import mix
 from . import shared
 try:
@@ -354,8 +355,9 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
 
     # If file name / path contain any surrogate pairs, remove them to
     # avoid problems when writing to XML
-    fileNameCleaned = stripSurrogatePairs(fileName)
-    filePathCleaned = stripSurrogatePairs(filePath)
+    # (this also goes for control characters)
+    fileNameCleaned = bc.removeControlCharacters(stripSurrogatePairs(fileName))
+    filePathCleaned = bc.removeControlCharacters(stripSurrogatePairs(filePath))
 
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
-- 
2.43.0


From 9b94b79f6c38ff65decba3f95c683dc189b7a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:05 +0000
Subject: [PATCH 21/41] fix: do not fail on modification times that cannot be
 represented

---
 jpylyzer/jpylyzer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index c828038..c11a1f2 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,7 +33,6 @@ Contributors:
 
 import sys
 import os
-import time
 import datetime
 import glob
 import argparse
@@ -367,10 +366,10 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except ValueError:
+    except (ValueError, OverflowError, OSError):
         # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
-        dt = time.ctime(0)
+        dt = 0
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
     fileInfo.appendChildTagWithText(
         "fileLastModified", lastModifiedDate)
-- 
2.43.0


From 814701b8ee48b2a6100fb728c85cac2ad63aea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:06 +0000
Subject: [PATCH 22/41] fix: report failure of files that cannot be accessed
 and continue with next file

---
 jpylyzer/jpylyzer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index c11a1f2..dac8c2a 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -361,8 +361,12 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
     fileInfo.appendChildTagWithText("filePath", filePathCleaned)
-    fileInfo.appendChildTagWithText(
-        "fileSizeInBytes", str(os.path.getsize(path)))
+    try:
+        fileSize = os.path.getsize(path)
+    except OSError:
+        # Bogus value, failure is reported below as file cannot be opened either
+        fileSize = -9999
+    fileInfo.appendChildTagWithText("fileSizeInBytes", str(fileSize))
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
@@ -427,11 +431,11 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         success = False
         exceptionType = type(ex)
 
-        if exceptionType == MemoryError:
+        if issubclass(exceptionType, MemoryError):
             failureMessage = "memory error (file size too large)"
-        elif exceptionType == IOError:
+        elif issubclass(exceptionType, IOError):
             failureMessage = "I/O error (cannot open file)"
-        elif exceptionType == RuntimeError:
+        elif issubclass(exceptionType, RuntimeError):
             failureMessage = "runtime error, please report to developers by creating " + \
                              "an issue at https://github.com/openpreserve/jpylyzer/issues"
         else:
-- 
2.43.0


From 4377d9602a41b820ebe1282e7f18b6a9674adc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:07 +0000
Subject: [PATCH 23/41] fix: only select regular files when recursing into
 directories

---
 jpylyzer/jpylyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index dac8c2a..b554909 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -553,7 +553,8 @@ def getFilesFromTree(rootDir):
 
         for filename in filenames:
             thisFile = os.path.join(dirname, filename)
-            EXISTING_FILES.append(thisFile)
+            if os.path.isfile(thisFile):
+                EXISTING_FILES.append(thisFile)
 
 
 def findFiles(recurse, paths):
-- 
2.43.0


From 6d84a842040c6872ce69f6f6b3af48281c6f5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:08 +0000
Subject: [PATCH 24/41] fix: find files in directories with wildcard characters
 in their names

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b554909..8c221ee 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -536,7 +536,7 @@ def getFilesWithPatternFromTree(rootDir, pattern):
         for subdirname in dirnames:
             thisDirectory = os.path.join(dirname, subdirname)
             # find files matching the pattern in current path
-            searchpattern = os.path.join(thisDirectory, pattern)
+            searchpattern = os.path.join(glob.escape(thisDirectory), pattern)
             getFiles(searchpattern)
 
 
-- 
2.43.0


From fd5a41e92f2e4c25b6726c19a123dc843a7396dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:41 +0000
Subject: [PATCH 25/41] fix: do not generate MIX for raw codestreams

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 8c221ee..8a35b65 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -448,7 +448,7 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         warnings.appendChildTagWithText("warning", failureMessage)
         shared.printWarning(failureMessage)
 
-    if mixFlag != 0 and fileIsValid:
+    if mixFlag != 0 and validationFormat in ['jp2', 'jph'] and fileIsValid:
         mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
 
     # Add status info
-- 
2.43.0


From 3c54be40e0148679393d0972f98901885e885fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:42 +0000
Subject: [PATCH 26/41] fix: generate MIX for JPH files without enumerated
 colourspace and ICC profile

---
 jpylyzer/mix.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 25bde6d..41f5216 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -104,11 +104,15 @@ class Mix:
             mixPI.append(mixColorProfile)
             mixBic.append(mixPI)
         else:
-            mixPI = ET.Element('mix:PhotometricInterpretation')
-            colorSpace = properties.find(
-                'jp2HeaderBox/colourSpecificationBox/enumCS').text
-            mixPI.appendChildTagWithText('mix:colorSpace', colorSpace.strip())
-            mixBic.append(mixPI)
+            # JPH can have neither an ICC profile nor an enumerated colourspace
+            enumCS = properties.find(
+                'jp2HeaderBox/colourSpecificationBox/enumCS')
+            if enumCS is not None:
+                mixPI = ET.Element('mix:PhotometricInterpretation')
+                colorSpace = enumCS.text
+                mixPI.appendChildTagWithText(
+                    'mix:colorSpace', colorSpace.strip())
+                mixBic.append(mixPI)
         mixBio.append(mixBic)
 
         mixSFC = ET.Element('mix:SpecialFormatCharacteristics')
-- 
2.43.0


From 32c623e13c619b112c0f4649342273d67d1da886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 27/41] fix: generate MIX for RDF without description element

---
 jpylyzer/mix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 41f5216..8700b1a 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -163,7 +163,11 @@ class Mix:
         if value is not None:
             return value.text
 
-        value = prop.find(prefixPath).attrib.get(ns + tag, None)
+        prefix = prop.find(prefixPath)
+        if prefix is None:
+            return None
+
+        value = prefix.attrib.get(ns + tag, None)
         if value and value is not None:
             return value
         return None
-- 
2.43.0


From 3163e81849773d4c1fd0f07799df962446c34eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 28/41] fix: round instead of truncate resolutions in MIX

---
 jpylyzer/mix.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 8700b1a..e19e931 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -265,26 +265,26 @@ class Mix:
             'jp2HeaderBox/resolutionBox/captureResolutionBox')
         if resolutionBox is not None:
             numX = int(
-                float(
+                round(float(
                     resolutionBox.find('hRescInPixelsPerMeter').text) *
-                100)
+                100))
             numY = int(
-                float(
+                round(float(
                     resolutionBox.find('vRescInPixelsPerMeter').text) *
-                100)
+                100))
         else:
             # Then try the displayResolutionBox
             resolutionBox = properties.find(
                 'jp2HeaderBox/resolutionBox/displayResolutionBox')
             if resolutionBox is not None:
                 numX = int(
-                    float(
+                    round(float(
                         resolutionBox.find('hResdInPixelsPerMeter').text) *
-                    100)
+                    100))
                 numY = int(
-                    float(
+                    round(float(
                         resolutionBox.find('vResdInPixelsPerMeter').text) *
-                    100)
+                    100))
         if resolutionBox is not None:
             mixSm = ET.Element('mix:SpatialMetrics')
             if self.mixFlag == 1:
-- 
2.43.0


From 6bbfa3fbebce8adc8364dc454cfa5816206fdf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:47 +0000
Subject: [PATCH 29/41] fix: do not mistake truncated box type for codestream
 marker

---
 jpylyzer/boxvalidator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index e31bc35..bd457a8 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -140,8 +140,10 @@ class BoxValidator:
         boxLengthValue = bc.bytesToUInt(
             self.boxContents[byteStart:byteStart + 4])
 
-        # Box type
-        boxType = self.boxContents[byteStart + 4:byteStart + 8]
+        # Box type (padded to 4 bytes, so a truncated box type cannot be
+        # mistaken for a codestream marker)
+        boxType = self.boxContents[byteStart + 4:byteStart + 8].ljust(
+            4, b'\x00')
 
         # Start byte of box contents
         contentsStartOffset = 8
-- 
2.43.0


From 8431b2d92233cbbc447ca4d1e168924f58d585fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:48 +0000
Subject: [PATCH 30/41] fix: include warning on unsupported boxes in report

---
 jpylyzer/boxvalidator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index bd457a8..bf3006b 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -121,6 +121,7 @@ class BoxValidator:
             # trigger "unknown" box validator function
             msg = "ignoring '" + self.boxType + \
                 "' (validator function not yet implemented)"
+            self.addWarning(msg)
             shared.printWarning(msg)
         else:
             to_call()
-- 
2.43.0


From aeab3b047ba6371223d99828ca239cc5352cbfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:49 +0000
Subject: [PATCH 31/41] fix: make schema accept reported video range and
 resolution values

---
 xsd/jpylyzer-v-2-2.xsd | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index f812e44..c8bc622 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -274,7 +274,7 @@
   <xs:element name="colPrims" type="xs:integer"/>
   <xs:element name="transfC" type="xs:integer"/>
   <xs:element name="matCoeffs" type="xs:integer"/>
-  <xs:element name="vidFRng" type="xs:integer"/>
+  <xs:element name="vidFRng" type="xs:string"/>
 
   <xs:element name="icc">
     <xs:complexType>
@@ -417,10 +417,10 @@
   <xs:element name="hRcD" type="xs:integer"/>
   <xs:element name="vRcE" type="xs:integer"/>
   <xs:element name="hRcE" type="xs:integer"/>
-  <xs:element name="vRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vRescInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vRescInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="displayResolutionBox">
     <xs:complexType>
@@ -445,10 +445,10 @@
   <xs:element name="hRdD" type="xs:integer"/>
   <xs:element name="vRdE" type="xs:integer"/>
   <xs:element name="hRdE" type="xs:integer"/>
-  <xs:element name="vResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vResdInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vResdInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="intellectualPropertyBox">
     <xs:complexType>
-- 
2.43.0


From bdff7131aba00e8159a8b290ef38b098c6f14445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:26 +0000
Subject: [PATCH 32/41] fix: compute long profile numbers without quadratic
 cost of powers

---
 jpylyzer/boxvalidator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index bf3006b..1ee69af 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2906,7 +2906,7 @@ class BoxValidator:
 
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            PRFnum += pprf * 2 ** (16 * i)
+            PRFnum += pprf << (16 * i)
             offset += 2
             if i == nopprfs - 1:
                 # last pprf shall not be zero
@@ -2935,7 +2935,7 @@ class BoxValidator:
 
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            CPFnum += pcpf * 2 ** (16 * i)
+            CPFnum += pcpf << (16 * i)
             offset += 2
             if i == nopcpfs - 1:
                 # last pcpf shall not be zero
-- 
2.43.0


From 664e12cbdeecde3204811b1676616bd5aee08086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:30 +0000
Subject: [PATCH 33/41] fix: current directory's name taken as part of a
 wildcard pattern

---
 jpylyzer/jpylyzer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 8a35b65..8cb0e19 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -571,9 +571,10 @@ def findFiles(recurse, paths):
         # Windows (& Linux with backslash prefix) does not expand wildcard '*'
         # Find files in the input path and add to list
         elif WILDCARD in root:
-            # get the absolute path if not given
+            # get the absolute path if not given (any special characters in
+            # name of current directory are not part of the pattern)
             if not os.path.isabs(root):
-                root = os.path.abspath(root)
+                root = os.path.abspath(os.path.join(glob.escape(os.getcwd()), root))
 
             # Expand wildcard in the input path. Returns a list of files,
             # folders
@@ -609,7 +610,10 @@ def findFiles(recurse, paths):
             if not os.path.isabs(root):
                 root = os.path.abspath(root)
 
-            if WILDCARD in root:
+            # get files in the current folder and sub dirs w/o wildcard in path
+            if os.path.isdir(root):
+                getFilesFromTree(root)
+            elif WILDCARD in root and not os.path.isfile(root):
                 pathAndFilePattern = os.path.split(root)
                 path = pathAndFilePattern[0]
                 filePattern = pathAndFilePattern[1]
@@ -628,14 +632,12 @@ def findFiles(recurse, paths):
                                 getFilesWithPatternFromTree(f, filePattern)
                 # file name or extension contains wildcard
                 elif WILDCARD in filePattern:
-                    getFilesWithPatternFromTree(path, filePattern)
+                    for f in glob.glob(path):
+                        getFilesWithPatternFromTree(f, filePattern)
                 elif WILDCARD in filenameAndExtension:
                     filenameAndExtension = os.path.splitext(filePattern)
                     extension = WILDCARD + filenameAndExtension[1]
                     getFilesWithPatternFromTree(path, extension)
-            # get files in the current folder and sub dirs w/o wildcard in path
-            elif os.path.isdir(root):
-                getFilesFromTree(root)
 
 
 def writeElement(elt, codec):
-- 
2.43.0


From b292ad83de6e9fa625632afebd25026ab41656f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:58 +0000
Subject: [PATCH 34/41] fix: empty argument selected the current directory when
 recursing

---
 jpylyzer/jpylyzer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 8cb0e19..c9c1a93 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -602,6 +602,7 @@ def findFiles(recurse, paths):
             # One or more (but not all) paths do no exist - print a warning
             msg = root + " does not exist"
             shared.printWarning(msg)
+            continue
 
         # RECURSION and WILDCARD IN RECURSION
         # Check if recurse in the input path
-- 
2.43.0


From cbf4b1b354378c1e7d42e2c3d0a27c4a4d72f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:03 +0000
Subject: [PATCH 35/41] fix: MIX ignored XMP attributes outside of the first
 Description element

---
 jpylyzer/mix.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index e19e931..66e5378 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -163,13 +163,11 @@ class Mix:
         if value is not None:
             return value.text
 
-        prefix = prop.find(prefixPath)
-        if prefix is None:
-            return None
-
-        value = prefix.attrib.get(ns + tag, None)
-        if value and value is not None:
-            return value
+        # Properties can be spread over more than one element
+        for prefix in prop.findall(prefixPath):
+            value = prefix.attrib.get(ns + tag, None)
+            if value and value is not None:
+                return value
         return None
 
     @staticmethod
-- 
2.43.0


From 6f3865732f5d56c562da9a32322fef67e16a1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:05 +0000
Subject: [PATCH 36/41] fix: exit with non-zero status after an error such as
 an unsupported format

---
 jpylyzer/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/shared.py b/jpylyzer/shared.py
index cff0ca9..6200d44 100644
--- a/jpylyzer/shared.py
+++ b/jpylyzer/shared.py
@@ -29,7 +29,7 @@ def errorExit(msg):
     """Print error message to stderr and exit."""
     msgString = ("Error: " + msg + "\n")
     sys.stderr.write(msgString)
-    sys.exit()
+    sys.exit(1)
 
 
 def consecutive(lst):
-- 
2.43.0


From b62aba2ba336dcdc96578c1f2abb0fb65098989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:29 +0000
Subject: [PATCH 37/41] fix: do not look for the next tile-part when psot could
 not be read

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 1ee69af..e47f07f 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3304,7 +3304,9 @@ class BoxValidator:
             # matter since check for EOC is included elsewhere
             markerNextTilePart = self.boxContents[
                 offsetNextTilePart:offsetNextTilePart + 2]
-            foundNextTilePartOrEOC = markerNextTilePart in [
+            # A negative value means psot could not be read: there is no next
+            # tile-part to look at then
+            foundNextTilePartOrEOC = tilePartLength > 0 and markerNextTilePart in [
                 b'\xff\x90', b'\xff\xd9']
             self.testFor("foundNextTilePartOrEOC", foundNextTilePartOrEOC)
 
-- 
2.43.0


From d6f9a95fb1b9370b1e24546732dddddc0258bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:39 +0000
Subject: [PATCH 38/41] fix: unusable stderr does not make the analysis fail

---
 jpylyzer/shared.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/shared.py b/jpylyzer/shared.py
index 6200d44..db256a5 100644
--- a/jpylyzer/shared.py
+++ b/jpylyzer/shared.py
@@ -22,7 +22,12 @@ import sys
 def printWarning(msg):
     """Print warning to stderr."""
     msgString = ("User warning: " + msg + "\n")
-    sys.stderr.write(msgString)
+    try:
+        sys.stderr.write(msgString)
+    except (AttributeError, OSError, ValueError):
+        # stderr doesn't exist, is closed or cannot be written to, which
+        # shouldn't affect the analysis
+        pass
 
 
 def errorExit(msg):
-- 
2.43.0


From a1cac1b9b169f987beedcf7940a4697866782e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:06 +0000
Subject: [PATCH 39/41] fix: an interrupt during the analysis stops the program

Conversions, searches and the parsing of XMP caught BaseException, hence also
KeyboardInterrupt: the interrupt was taken for undecodable data, a valid
file was reported as not valid and the program went on and ended with status 0.
---
 jpylyzer/boxvalidator.py | 4 ++--
 jpylyzer/byteconv.py     | 6 +++---
 jpylyzer/etpatch.py      | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index e47f07f..a0c2f2c 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3381,7 +3381,7 @@ class BoxValidator:
 
                 # If no exception was raised data contains well-formed XML
                 containsWellformedXML = True
-            except BaseException:
+            except Exception:
                 # If parse raised error this is not well-formed XML
                 containsWellformedXML = False
 
@@ -3392,7 +3392,7 @@ class BoxValidator:
                         data = bc.removeNullTerminator(data)
                         dataAsElement = ET.fromstring(data)
                         self.characteristics.append(dataAsElement)
-                    except BaseException:
+                    except Exception:
                         pass
 
             self.testFor("containsWellformedXML", containsWellformedXML)
diff --git a/jpylyzer/byteconv.py b/jpylyzer/byteconv.py
index 6a47c45..e4059a3 100644
--- a/jpylyzer/byteconv.py
+++ b/jpylyzer/byteconv.py
@@ -29,7 +29,7 @@ def _doConv(bytestr, bOrder, formatCharacter):
     formatStr = bOrder + formatCharacter
     try:
         result = struct.unpack(formatStr, bytestr)[0]
-    except BaseException:
+    except Exception:
         result = -9999
     return result
 
@@ -88,7 +88,7 @@ def bytesToInteger(bytestring):
     """
     try:
         result = int(binascii.hexlify(bytestring), 16)
-    except BaseException:
+    except Exception:
         result = -9999
 
     return result
@@ -148,7 +148,7 @@ def bytesToText(bytestring):
         # Remove control characters
         result = removeControlCharacters(string)
 
-    except BaseException:
+    except Exception:
         # Return empty string if bytestring cannot be decoded
         result = ""
 
diff --git a/jpylyzer/etpatch.py b/jpylyzer/etpatch.py
index 55001d6..9a67442 100644
--- a/jpylyzer/etpatch.py
+++ b/jpylyzer/etpatch.py
@@ -62,7 +62,7 @@ class Element(ET.Element):
         """
         try:
             return [result.text for result in self.findall(match)]
-        except BaseException:
+        except Exception:
             return []
 
     def appendChildTagWithText(self, tag, text):
-- 
2.43.0


From 2860e1e243902448fde315603267444ba9cce54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:34 +0000
Subject: [PATCH 40/41] fix: unbuffered output is written completely or the
 program fails

With python -u (PYTHONUNBUFFERED) a write to stdout may take only a part of
the data, for example on a full disk. The rest was lost, and if that
happened at the end of the document the program ended with status 0.
---
 jpylyzer/jpylyzer.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index c9c1a93..d4ae87f 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,6 +33,7 @@ Contributors:
 
 import sys
 import os
+import io
 import datetime
 import glob
 import argparse
@@ -641,6 +642,27 @@ def findFiles(recurse, paths):
                     getFilesWithPatternFromTree(path, extension)
 
 
+class UnbufferedOutput:
+    """Unbuffered stream to which everything is written.
+
+    A single write may take only a part of the data (e.g. because the disk
+    is full), without raising an exception.
+    """
+
+    def __init__(self, stream):
+        """Initialise with the underlying stream."""
+        self.stream = stream
+
+    def write(self, data):
+        """Write all data."""
+        written = 0
+        while written < len(data):
+            count = self.stream.write(data[written:])
+            if not count:
+                raise OSError("cannot write to stdout")
+            written += count
+
+
 def writeElement(elt, codec):
     """Write element as XML to stdout using defined codec."""
 
@@ -677,7 +699,11 @@ def checkFiles(recurse, paths):
     checkNoInput(EXISTING_FILES)
 
     # Set encoding of the terminal to UTF-8
-    out = codecs.getwriter(config.UTF8_ENCODING)(sys.stdout.buffer)
+    stream = sys.stdout.buffer
+    if isinstance(stream, io.RawIOBase):
+        # Unbuffered output (e.g. python -u)
+        stream = UnbufferedOutput(stream)
+    out = codecs.getwriter(config.UTF8_ENCODING)(stream)
 
     # Wrap the xml output in <jpylyzer> element
 
-- 
2.43.0


From dbcd1c0a3389782b320fda1bb4b597bd5f95bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:49 +0000
Subject: [PATCH 41/41] fix: clean up the name of the tool before it is
 reported

A script name with control characters or bytes that are not UTF-8 made
the output of all files fail.
---
 jpylyzer/jpylyzer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index d4ae87f..4c0ce28 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -719,7 +719,9 @@ def checkFiles(recurse, paths):
     # Create toolInfo element
 
     toolInfo = ET.Element('toolInfo')
-    toolInfo.appendChildTagWithText("toolName", SCRIPT_NAME)
+    # Remove any surrogate pairs and control characters, as in file names
+    toolName = bc.removeControlCharacters(stripSurrogatePairs(SCRIPT_NAME))
+    toolInfo.appendChildTagWithText("toolName", toolName)
     toolInfo.appendChildTagWithText("toolVersion", __version__)
     # Write toolInfo to stdout
     writeElement(toolInfo, out)
-- 
2.43.0

