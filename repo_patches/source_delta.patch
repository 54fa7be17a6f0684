From 33ba0bf8d32e624e667da161e9395251ef6cf3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:30 +0000
Subject: [PATCH 01/95] fix: split long SMS texts by their encoded size so that
 no text is lost or truncated

---
 gsmmodem/pdu.py | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index ee15ebc..9c1c221 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -42,6 +42,9 @@ GSM7_EXTENDED = {chr(0xFF): 0x0A,
 MAX_MESSAGE_LENGTH = {0x00: 160, # GSM-7
                       0x04: 140, # 8-bit
                       0x08: 70}  # UCS2
+# Maximum size of each part of a concatenated message for each data coding (leaves space for the "concatenation" header)
+MAX_MULTIPART_MESSAGE_LENGTH = {0x00: 153, # GSM-7
+                                0x08: 67}  # UCS2
 
 class SmsPduTzInfo(tzinfo):
     """ Simple implementation of datetime.tzinfo for handling timestamp GMT offsets specified in SMS PDUs """
@@ -284,16 +287,16 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         alphabet = 0x00 # GSM-7    
         
     # Check if message should be concatenated
-    if len(text) > MAX_MESSAGE_LENGTH[alphabet]:
+    textParts = _splitMessageText(text, alphabet)
+    pduCount = len(textParts)
+    if pduCount > 1:
         # Text too long for single PDU - add "concatenation" User Data Header
         concatHeaderPrototype = Concatenation()
         concatHeaderPrototype.reference = reference
-        pduCount = int(len(text) / MAX_MESSAGE_LENGTH[alphabet]) + 1
         concatHeaderPrototype.parts  = pduCount
         tpduFirstOctet |= 0x40
     else:
         concatHeaderPrototype = None
-        pduCount = 1
     
     # Construct required PDU(s)
     pdus = []    
@@ -308,13 +311,8 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         if concatHeaderPrototype != None:
             concatHeader = copy(concatHeaderPrototype)
             concatHeader.number = i + 1
-            if alphabet == 0x00:
-                pduText = text[i*153:(i+1) * 153]
-            elif alphabet == 0x08:
-                pduText = text[i * 67 : (i + 1) * 67]
             udh.extend(concatHeader.encode())
-        else:
-            pduText = text
+        pduText = textParts[i]
         
         udhLen = len(udh)        
         
@@ -354,6 +352,38 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
+def _splitMessageText(text, alphabet):
+    """ Splits message text into the part(s) that will each be sent in its own PDU
+    
+    The space each character takes up once encoded is taken into account: in GSM-7, characters from the
+    extension table use two septets, which may not be split across PDUs.
+    
+    :param text: the message text
+    :type text: str
+    :param alphabet: The data coding to use; 0x00 (GSM-7) or 0x08 (UCS2)
+    :type alphabet: int
+    
+    :return: the text of each of the PDUs (only one item if the text fits into a single PDU)
+    :rtype: list
+    """
+    if alphabet == 0x00: # GSM-7; sizes are in septets
+        charSizes = [len(encodeGsm7(char)) for char in text]
+    else: # UCS2; sizes are in 2-octet units
+        charSizes = [len(encodeUcs2(char)) // 2 for char in text]
+    if sum(charSizes) <= MAX_MESSAGE_LENGTH[alphabet]:
+        return [text]
+    maxPartSize = MAX_MULTIPART_MESSAGE_LENGTH[alphabet]
+    parts = []
+    partStart = partSize = 0
+    for i, charSize in enumerate(charSizes):
+        if partSize + charSize > maxPartSize:
+            parts.append(text[partStart:i])
+            partStart = i
+            partSize = 0
+        partSize += charSize
+    parts.append(text[partStart:])
+    return parts
+
 def decodeSmsPdu(pdu):
     """ Decodes SMS pdu data and returns a tuple in format (number, text)
     
-- 
2.43.0


From 8e7fdfc4a35bc7c28b972d3ca79fd45cf567c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 02/95] fix: map GSM-7 extension code 0x0A to form feed
 (encoding U+00FF raised TypeError)

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 9c1c221..757e67c 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -26,7 +26,7 @@ else: #pragma: no cover
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
 GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
-GSM7_EXTENDED = {chr(0xFF): 0x0A,
+GSM7_EXTENDED = {'\x0c': chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
                  #SS2: chr(0x1B),
-- 
2.43.0


From d0a9f1b914ce1d66a1a6ad4221ce1bb57895b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 03/95] fix: do not encode a literal escape character as the
 GSM-7 escape code

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 757e67c..4ebe473 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -706,7 +706,7 @@ def encodeGsm7(plaintext, discardInvalid=False):
         plaintext = str(plaintext)
     for char in plaintext:
         idx = GSM7_BASIC.find(char)
-        if idx != -1:
+        if idx != -1 and idx != 0x1B: # 0x1B is the escape code; it does not represent a character
             result.append(idx)
         elif char in GSM7_EXTENDED:
             result.append(0x1B) # ESC - switch to extended table
-- 
2.43.0


From 8c5a9ed39200b1ea328d15d204bcc79953518f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 04/95] fix: allow packing an empty GSM-7 text (empty messages
 raised StopIteration)

---
 gsmmodem/pdu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 4ebe473..6f0242a 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -756,7 +756,9 @@ def packSeptets(octets, padBits=0):
         octets = iter(octets)
     shift = padBits
     if padBits == 0:
-        prevSeptet = next(octets)
+        prevSeptet = next(octets, None)
+        if prevSeptet == None:
+            return result # Nothing to pack
     else:
         prevSeptet = 0x00
     for octet in octets:
-- 
2.43.0


From 3a61b312aa4a71be49c14b8ddbdefe3b77aa649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:14 +0000
Subject: [PATCH 05/95] fix: encode and decode characters outside the BMP (e.g.
 emoji) as surrogate pairs

---
 gsmmodem/pdu.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 6f0242a..04bed40 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -830,13 +830,24 @@ def decodeUcs2(byteIter, numBytes):
     i = 0
     try:
         while i < numBytes:
-            userData.append(unichr((next(byteIter) << 8) | next(byteIter)))
+            codeUnit = (next(byteIter) << 8) | next(byteIter)
+            if 0xDC00 <= codeUnit <= 0xDFFF and len(userData) > 0 and 0xD800 <= ord(userData[-1][-1]) <= 0xDBFF:
+                # Second half of a UTF-16 surrogate pair; combine it with the first half
+                userData[-1] = _surrogatePairToChar(userData[-1], codeUnit)
+            else:
+                userData.append(unichr(codeUnit))
             i += 2
     except StopIteration:
         # Not enough bytes in iterator to reach numBytes; return what we have
         pass
     return ''.join(userData)
 
+def _surrogatePairToChar(high, low):
+    """ Combines the two halves of a UTF-16 surrogate pair into a single character """
+    if sys.maxunicode == 0xFFFF: #pragma: no cover
+        return high + unichr(low) # "Narrow" Python build; it uses surrogate pairs internally as well
+    return unichr(0x10000 + ((ord(high) - 0xD800) << 10) + (low - 0xDC00))
+
 def encodeUcs2(text):
     """ UCS2 text encoding algorithm
     
@@ -849,6 +860,12 @@ def encodeUcs2(text):
     """
     result = bytearray()
     for b in map(ord, text):
+        if b > 0xFFFF: # Outside of the Basic Multilingual Plane - use a UTF-16 surrogate pair
+            b -= 0x10000
+            high = 0xD800 | (b >> 10)
+            result.append(high >> 8)
+            result.append(high & 0xFF)
+            b = 0xDC00 | (b & 0x3FF)
         result.append(b >> 8)
         result.append(b & 0xFF)
     return result
-- 
2.43.0


From 34099d2d3e36b7272d01e2e7a3057fb41a2cac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:14 +0000
Subject: [PATCH 06/95] fix: decode exactly the announced number of GSM-7
 characters (trailing '@', empty text, text after UDHs that need no fill bits)

---
 gsmmodem/pdu.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 04bed40..43fdfaf 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -462,18 +462,20 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
             result['udh'].append(ie)
         del ieLenRead
         if dataCoding == 0x00: # GSM-7
+            userDataLen -= ((udhLen + 1) * 8 + 6) // 7 # user data length includes the septets taken up by the UDH
             # Since we are using 7-bit data, "fill bits" may have been added to make the UDH end on a septet boundary
             shift = ((udhLen + 1) * 8) % 7 # "fill bits" needed to make the UDH end on a septet boundary
-            # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
-            prevOctet = next(byteIter)
-            shift += 1
 
     if dataCoding == 0x00: # GSM-7
-        if udhPresent:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen, prevOctet, shift)
+        if userDataLen <= 0:
+            userDataSeptets = bytearray()
+        elif udhPresent and shift > 0:
+            # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
+            prevOctet = next(byteIter)
+            userDataSeptets = unpackSeptets(byteIter, userDataLen, prevOctet, shift + 1)
         else:
             userDataSeptets = unpackSeptets(byteIter, userDataLen)
-        result['text'] = decodeGsm7(userDataSeptets)
+        result['text'] = decodeGsm7(userDataSeptets[:max(userDataLen, 0)])
     elif dataCoding == 0x02: # UCS2
         result['text'] = decodeUcs2(byteIter, userDataLen)
     else: # 8-bit (data)
@@ -817,9 +819,9 @@ def unpackSeptets(septets, numberOfSeptets=None, prevOctet=None, shift=7):
         
         if i == numberOfSeptets:
             break
-    if shift == 7:
+    if shift == 7 and prevOctet != None:
         b = prevOctet >> (8 - shift)
-        if b:
+        if b or len(result) < numberOfSeptets < MAX_INT:
             # The final septet value still needs to be unpacked
             result.append(b)        
     return result
-- 
2.43.0


From f7d546bd8671c3484f822f2b86221e776001448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 07/95] fix: use the number of useful semi-octets as length of
 alphanumeric addresses

---
 gsmmodem/pdu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 43fdfaf..c7e5476 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -636,8 +636,9 @@ def _encodeAddressField(address, smscField=False):
             toa &= 0xFE # switch to "unknown" numbering plan
             alphaNumeric = True
     if  alphaNumeric:
-        addressValue = packSeptets(encodeGsm7(address, False))
-        addressLen = len(addressValue) * 2        
+        encodedAddress = encodeGsm7(address, False)
+        addressValue = packSeptets(encodedAddress)
+        addressLen = (len(encodedAddress) * 7 + 3) // 4 # number of useful semi-octets
     else:
         addressValue = encodeSemiOctets(address)
         if smscField:            
-- 
2.43.0


From 61b9eaa44f5cbf749aa6050c6cb69902dac69dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 08/95] fix: skip the type-of-address octet of an empty address
 field

---
 gsmmodem/pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index c7e5476..d4f2963 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -599,8 +599,11 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
             if ton == 0x10: # International number
                 addressValue = '+' + addressValue
             return (addressValue, (addressLen + 1))
-    else:
+    elif smscField:
         return (None, 1)
+    else:
+        next(byteIter) # the type-of-address octet is always present in TPDU address fields
+        return (None, 2)
 
 def _encodeAddressField(address, smscField=False):
     """ Encodes the address into an address field
-- 
2.43.0


From 318c847ed1e34103996764198536f2e071d685cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:36 +0000
Subject: [PATCH 09/95] fix: raise EncodingError for all malformed or truncated
 PDUs

---
 gsmmodem/pdu.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index d4f2963..1bb96c6 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -400,6 +400,14 @@ def decodeSmsPdu(pdu):
     except Exception as e:
         # Python 2 raises TypeError, Python 3 raises binascii.Error
         raise EncodingError(e)
+    try:
+        return _decodeSmsPduOctets(pdu)
+    except (StopIteration, ValueError, TypeError, IndexError) as e:
+        # PDU is truncated or contains invalid values
+        raise EncodingError('Invalid SMS PDU: {0!r}'.format(e))
+
+def _decodeSmsPduOctets(pdu):
+    """ Decodes the specified SMS PDU octets; see decodeSmsPdu() """
     result = {}
     pduIter = iter(pdu)
  
@@ -738,7 +746,7 @@ def decodeGsm7(encodedText):
     iterEncoded = iter(encodedText)
     for b in iterEncoded:
         if b == 0x1B: # ESC - switch to extended table
-            c = chr(next(iterEncoded))
+            c = chr(next(iterEncoded, 0x1B)) # an escape code at the end of the text does not represent anything
             for char, value in dictItemsIter(GSM7_EXTENDED):
                 if c == value:
                     result.append(char)
-- 
2.43.0


From 2e0ac3bd6b6c5385aff6895df7eb7c011eb586b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:37 +0000
Subject: [PATCH 10/95] fix: keep quarter-hour time zone offsets of text mode
 time stamps

---
 gsmmodem/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/util.py b/gsmmodem/util.py
index 1008e5c..0afdb73 100644
--- a/gsmmodem/util.py
+++ b/gsmmodem/util.py
@@ -41,7 +41,7 @@ def parseTextModeTimeStr(timeStr):
     :rtype: datetime.datetime
     """
     msgTime = timeStr[:-3]
-    tzOffsetHours = int(int(timeStr[-3:]) * 0.25)
+    tzOffsetHours = int(timeStr[-3:]) * 0.25
     return datetime.strptime(msgTime, '%y/%m/%d,%H:%M:%S').replace(tzinfo=SimpleOffsetTzInfo(tzOffsetHours))
 
 def lineStartingWith(string, lines):
-- 
2.43.0


From 89d24784905aa4f3d4268049312a9d05a723344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 11/95] fix: only treat a whole line as end of a response
 (lines starting with OK or ERROR ended it early)

---
 gsmmodem/serial_comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index ac445f5..5f5b759 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -18,7 +18,7 @@ class SerialComms(object):
     # End-of-line read terminator
     RX_EOL_SEQ = '\r\n'
     # End-of-response terminator
-    RESPONSE_TERM = re.compile(r'^OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT)$')
+    RESPONSE_TERM = re.compile(r'^(?:OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT))$')
     # Default timeout for serial port reads (in seconds)
     timeout = 1
         
-- 
2.43.0


From b3f4468278d221b948cbe2b6e07371a542ed6e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:36 +0000
Subject: [PATCH 12/95] fix: synchronise the read thread with the start and end
 of commands; reset command state if writing fails

---
 gsmmodem/serial_comms.py | 55 ++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 5f5b759..04c801d 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -35,6 +35,8 @@ class SerialComms(object):
         self._responseEvent = None # threading.Event()
         self._expectResponseTermSeq = None # expected response terminator sequence
         self._response = None # Buffer containing response to a written command
+        # Lock protecting the response-related variables above, which are shared between the read thread and writing threads
+        self._responseLock = threading.Lock()
         self._notification = [] # Buffer containing lines from an unsolicited notification from the modem
         # Reentrant lock for managing concurrent write access to the underlying serial port
         self._txLock = threading.RLock()
@@ -59,15 +61,17 @@ class SerialComms(object):
 
     def _handleLineRead(self, line, checkForResponseTerm=True):
         #print 'sc.hlineread:',line
-        if self._responseEvent and not self._responseEvent.is_set():
-            # A response event has been set up (another thread is waiting for this response)
-            self._response.append(line)
-            if not checkForResponseTerm or self.RESPONSE_TERM.match(line):
-                # End of response reached; notify waiting thread
-                #print 'response:', self._response
-                self.log.debug('response: %s', self._response)
-                self._responseEvent.set()
-        else:            
+        with self._responseLock:
+            waitingForResponse = self._responseEvent and not self._responseEvent.is_set()
+            if waitingForResponse:
+                # A response event has been set up (another thread is waiting for this response)
+                self._response.append(line)
+                if not checkForResponseTerm or self.RESPONSE_TERM.match(line):
+                    # End of response reached; notify waiting thread
+                    #print 'response:', self._response
+                    self.log.debug('response: %s', self._response)
+                    self._responseEvent.set()
+        if not waitingForResponse:
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
             if self.serial.inWaiting() == 0:
@@ -101,8 +105,9 @@ class SerialComms(object):
                         if len(line) > 0:                          
                             #print 'calling handler'                      
                             self._handleLineRead(line)
-                    elif self._expectResponseTermSeq:
-                        if rxBuffer[-len(self._expectResponseTermSeq):] == self._expectResponseTermSeq:
+                    else:
+                        expectedTermSeq = self._expectResponseTermSeq # may be reset by the writing thread at any time
+                        if expectedTermSeq and rxBuffer[-len(expectedTermSeq):] == expectedTermSeq:
                             line = ''.join(rxBuffer) 
                             rxBuffer = []
                             self._handleLineRead(line, checkForResponseTerm=False)                                                
@@ -122,19 +127,25 @@ class SerialComms(object):
             if waitForResponse:
                 if expectedResponseTermSeq:
                     self._expectResponseTermSeq = list(expectedResponseTermSeq) 
-                self._response = []
-                self._responseEvent = threading.Event()                
-                self.serial.write(data)
-                if self._responseEvent.wait(timeout):
-                    self._responseEvent = None
-                    self._expectResponseTermSeq = False
-                    return self._response
+                response = []
+                responseEvent = threading.Event()
+                with self._responseLock:
+                    self._response = response
+                    self._responseEvent = responseEvent
+                try:
+                    self.serial.write(data)
+                    responseEvent.wait(timeout)
+                finally:
+                    with self._responseLock:
+                        # Stop collecting response lines (also if the command could not be written)
+                        self._responseEvent = None
+                        self._expectResponseTermSeq = None
+                if responseEvent.is_set():
+                    return response
                 else: # Response timed out
-                    self._responseEvent = None
-                    self._expectResponseTermSeq = False
-                    if len(self._response) > 0:
+                    if len(response) > 0:
                         # Add the partial response to the timeout exception
-                        raise TimeoutException(self._response)
+                        raise TimeoutException(response)
                     else:
                         raise TimeoutException()
             else:                
-- 
2.43.0


From dcacf99d43a03aadbf7a2effcf930a4aa3f69d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:25 +0000
Subject: [PATCH 13/95] fix: do not hold back notifications until another one
 arrives if they are followed by other data

---
 gsmmodem/serial_comms.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 04c801d..33d20d0 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -71,15 +71,24 @@ class SerialComms(object):
                     #print 'response:', self._response
                     self.log.debug('response: %s', self._response)
                     self._responseEvent.set()
-        if not waitingForResponse:
+        if waitingForResponse:
+            # This line is not part of any notification that was received before it
+            self._notifyPending()
+        else:
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
             if self.serial.inWaiting() == 0:
-                # No more chars on the way for this notification - notify higher-level callback
-                #print 'notification:', self._notification
-                self.log.debug('notification: %s', self._notification)
-                self.notifyCallback(self._notification)
-                self._notification = []                
+                # No more chars on the way for this notification
+                self._notifyPending()
+
+    def _notifyPending(self):
+        """ Passes the notification lines that have been read so far (if any) to the higher-level callback """
+        if len(self._notification) > 0:
+            #print 'notification:', self._notification
+            self.log.debug('notification: %s', self._notification)
+            notification = self._notification
+            self._notification = []
+            self.notifyCallback(notification)
 
     def _placeholderCallback(self, *args, **kwargs):
         """ Placeholder callback function (does nothing) """
@@ -105,14 +114,17 @@ class SerialComms(object):
                         if len(line) > 0:                          
                             #print 'calling handler'                      
                             self._handleLineRead(line)
+                        elif self.serial.inWaiting() == 0:
+                            self._notifyPending()
                     else:
                         expectedTermSeq = self._expectResponseTermSeq # may be reset by the writing thread at any time
                         if expectedTermSeq and rxBuffer[-len(expectedTermSeq):] == expectedTermSeq:
                             line = ''.join(rxBuffer) 
                             rxBuffer = []
                             self._handleLineRead(line, checkForResponseTerm=False)                                                
-            #else:
-                #' <RX timeout>'
+                elif self.serial.inWaiting() == 0:
+                    #' <RX timeout>'
+                    self._notifyPending()
         except serial.SerialException as e:
             self.alive = False
             try:
-- 
2.43.0


From 62aee43cd8a76881e9f9fd1fc5076329b340eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:14 +0000
Subject: [PATCH 14/95] fix: make communication with real serial ports work in
 Python 3 (pyserial uses bytes)

---
 gsmmodem/serial_comms.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 33d20d0..8dcf1c9 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -2,7 +2,7 @@
 
 """ Low-level serial communications handling """
 
-import sys, threading, logging
+import sys, threading, logging, io
 
 import re
 import serial # pyserial: http://pyserial.sourceforge.net
@@ -10,6 +10,26 @@ import serial # pyserial: http://pyserial.sourceforge.net
 from .exceptions import TimeoutException
 from . import compat # For Python 2.6 compatibility
 
+PYTHON_VERSION = sys.version_info[0]
+
+class _TextSerial(object):
+    """ Wraps a pyserial port, allowing str objects to be written to and read from it in Python 3 """
+
+    ENCODING = 'latin-1' # Every byte value maps to exactly one character
+
+    def __init__(self, serialPort):
+        self._serialPort = serialPort
+
+    def read(self, size=1):
+        return self._serialPort.read(size).decode(self.ENCODING)
+
+    def write(self, data):
+        return self._serialPort.write(data if isinstance(data, bytes) else data.encode(self.ENCODING))
+
+    def __getattr__(self, name):
+        return getattr(self._serialPort, name)
+
+
 class SerialComms(object):
     """ Wraps all low-level serial communications (actual read/write operations) """
     
@@ -47,6 +67,9 @@ class SerialComms(object):
     def connect(self):
         """ Connects to the device and starts the read thread """                
         self.serial = serial.Serial(port=self.port, baudrate=self.baudrate, timeout=self.timeout)
+        if PYTHON_VERSION >= 3 and isinstance(self.serial, io.RawIOBase):
+            # pyserial transfers bytes (not str) in Python 3
+            self.serial = _TextSerial(self.serial)
         # Start read thread
         self.alive = True 
         self.rxThread = threading.Thread(target=self._readLoop)
-- 
2.43.0


From 325cd86c8fb8f4b9f866c5041149e5f8b69e3787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:20 +0000
Subject: [PATCH 15/95] fix: handle every notification when several are
 received at once; only treat lines starting with RING/+CRING as incoming
 calls

---
 gsmmodem/modem.py | 74 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e468f34..dab3641 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -859,37 +859,59 @@ class GsmModem(SerialComms):
         
         :param lines The lines that were read
         """
-        for line in lines:
-            if 'RING' in line:
-                # Incoming call (or existing call is ringing)
-                self._handleIncomingCall(lines)
-                return
-            elif line.startswith('+CMTI'):
+        # Different notifications may have been received right after each other; handle all of them
+        lines = list(lines)
+        while len(lines) > 0:
+            try:
+                self._handleNextNotification(lines)
+            except Exception:
+                if len(lines) > 0:
+                    # Make sure that the rest of the notifications are still handled
+                    self._handleModemNotification(lines)
+                raise
+    
+    def _handleNextNotification(self, lines):
+        """ Handles the first notification in the specified lines, and removes its line(s) from the list """
+        line = lines.pop(0)
+        if line.startswith('RING') or line.startswith('+CRING'):
+            # Incoming call (or existing call is ringing)
+            self._handleIncomingCall(line, lines)
+        elif line.startswith('+CMTI') or line.startswith('+CDSI'):
+            if len(lines) > 0:
+                # Do not let other notifications wait until this message has been processed
+                self._handleModemNotification(lines[:])
+                del lines[:]
+            if line.startswith('+CMTI'):
                 # New SMS message indication
                 self._handleSmsReceived(line)
-                return
-            elif line.startswith('+CUSD'):
-                # USSD notification - either a response or a MT-USSD ("push USSD") message
-                self._handleUssd(lines)
-                return
-            elif line.startswith('+CDSI'):
+            else:
                 # SMS status report
                 self._handleSmsStatusReport(line)
-                return
-            else:
-                # Check for call status updates            
-                for updateRegex, handlerFunc in self._callStatusUpdates:
-                    match = updateRegex.match(line)
-                    if match:
-                        # Handle the update
-                        handlerFunc(match)
-                        return
-        # If this is reached, the notification wasn't handled
-        self.log.debug('Unhandled unsolicited modem notification: %s', lines)    
+        elif line.startswith('+CUSD'):
+            # USSD notification - either a response or a MT-USSD ("push USSD") message
+            ussdLines = [line]
+            while len(lines) > 0 and (lines[0].startswith('+CUSD') or self._isIncompleteCusd(ussdLines)):
+                ussdLines.append(lines.pop(0))
+            self._handleUssd(ussdLines)
+        else:
+            # Check for call status updates            
+            for updateRegex, handlerFunc in self._callStatusUpdates:
+                match = updateRegex.match(line)
+                if match:
+                    # Handle the update
+                    handlerFunc(match)
+                    return
+            # If this is reached, the notification wasn't handled
+            self.log.debug('Unhandled unsolicited modem notification: %s', line)    
+    
+    def _isIncompleteCusd(self, lines):
+        """ :return: True if the text of the last USSD message in the specified lines continues on the next line """
+        text = '\r\n'.join(lines)
+        text = text[text.rfind('+CUSD'):]
+        return '"' in text and not self.CUSD_REGEX.match(text)
     
-    def _handleIncomingCall(self, lines):
+    def _handleIncomingCall(self, ringLine, lines):
         self.log.debug('Handling incoming call')
-        ringLine = lines.pop(0)
         if self._extendedIncomingCallIndication:
             try:
                 callType = ringLine.split(' ', 1)[1]
@@ -905,7 +927,7 @@ class GsmModem(SerialComms):
                     self._extendedIncomingCallIndication = False
         else:
             callType = None
-        if self._callingLineIdentification and len(lines) > 0:
+        if self._callingLineIdentification and len(lines) > 0 and lines[0].startswith('+CLIP'):
             clipLine = lines.pop(0)
             clipMatch = self.CLIP_REGEX.match(clipLine)
             if clipMatch:
-- 
2.43.0


From 40f11800030ff75a7201d74163e5efce1c0c3e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:00 +0000
Subject: [PATCH 16/95] fix: reset the waiting period of busy modems if the
 retried command fails; do not resend SMS bodies without a prompt

---
 gsmmodem/modem.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index dab3641..7ed8ccc 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -421,20 +421,21 @@ class GsmModem(SerialComms):
                     if cmErrorMatch:
                         errorType = cmErrorMatch.group(1)
                         errorCode = int(cmErrorMatch.group(2))
-                        if errorCode == 515 or errorCode == 14:
+                        if (errorCode == 515 or errorCode == 14) and writeTerm == '\r': # (an SMS message body cannot be retried without its command)
                             # 515 means: "Please wait, init or command processing in progress."
                             # 14 means "SIM busy"
                             self._writeWait += 0.2 # Increase waiting period temporarily
                             # Retry the command after waiting a bit
                             self.log.debug('Device/SIM busy error detected; self._writeWait adjusted to %fs', self._writeWait)
                             time.sleep(self._writeWait)
-                            result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
-                            self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
-                            if errorCode == 515:
-                                self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
-                            else:
-                                self._writeWait = 0 # The modem was just waiting for the SIM card
-                            return result
+                            try:
+                                return self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
+                            finally:
+                                self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
+                                if errorCode == 515:
+                                    self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
+                                else:
+                                    self._writeWait = 0 # The modem was just waiting for the SIM card
                         if errorType == 'CME':
                             raise CmeError(data, int(errorCode))
                         else: # CMS error
-- 
2.43.0


From ef812d1a5069346955408505398299ffdec3f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:49 +0000
Subject: [PATCH 17/95] fix: strip white space from the items of single-line
 +CLAC responses

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 7ed8ccc..68790c8 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -508,7 +508,7 @@ class GsmModem(SerialComms):
                 commands = response[0]
                 if commands.startswith('+CLAC'):
                     commands = commands[6:] # remove the +CLAC: prefix before splitting
-                return commands.split(',')
+                return [cmd.strip() for cmd in commands.split(',')]
             elif len(response) > 2: # Multi-line response
                 return [cmd.strip() for cmd in response[:-1]]
             else:
-- 
2.43.0


From 8864c1cc04e89538ad6e2af03fd32c40d70acdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 18/95] fix: give every active call its own ID, and do not let
 a call that has ended affect a later call

---
 gsmmodem/modem.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 68790c8..f395cb4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -719,10 +719,10 @@ class GsmModem(SerialComms):
                 self._dialEvent = None # Cancel the thread sync lock
                 raise
         else:
-            # Don't wait for a call init update - base the call ID on the number of active calls
+            # Don't wait for a call init update - base the call ID on the active calls
             self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
             self.log.debug("Not waiting for outgoing call init update message")
-            callId = len(self.activeCalls) + 1
+            callId = self._unusedCallId()
             callType = 0 # Assume voice
             call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
             self.activeCalls[callId] = call
@@ -945,16 +945,23 @@ class GsmModem(SerialComms):
             callerNumber = ton = callerName = None
         
         call = None
-        for activeCall in dictValuesIter(self.activeCalls):
-            if activeCall.number == callerNumber:
+        for activeCall in list(dictValuesIter(self.activeCalls)):
+            if isinstance(activeCall, IncomingCall) and activeCall.number == callerNumber:
                 call = activeCall
                 call.ringCount += 1
         if call == None:
-            callId = len(self.activeCalls) + 1;
+            callId = self._unusedCallId()
             call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
             self.activeCalls[callId] = call
         self.incomingCallCallback(call)    
     
+    def _unusedCallId(self):
+        """ :return: The lowest call ID that is not in use by any of the active calls """
+        callId = 1
+        while callId in self.activeCalls:
+            callId += 1
+        return callId
+    
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
         if self._dialEvent:
@@ -978,7 +985,7 @@ class GsmModem(SerialComms):
                 self.activeCalls[callId].answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
-                for call in dictValuesIter(self.activeCalls):
+                for call in list(dictValuesIter(self.activeCalls)):
                     if call.answered == False and type(call) == Call:
                         call.answered = True
                         return
@@ -993,15 +1000,21 @@ class GsmModem(SerialComms):
                 callId = int(groups[0])
             else:
                 # Call ID not available for this notification - check for the first outgoing call that is active
-                for call in dictValuesIter(self.activeCalls):
+                for call in list(dictValuesIter(self.activeCalls)):
                     if type(call) == Call:
                         if not filterUnanswered or (filterUnanswered == True and call.answered == False):
                             callId = call.id
                             break
-        if callId and callId in self.activeCalls:
-            self.activeCalls[callId].answered = False
-            self.activeCalls[callId].active = False
-            del self.activeCalls[callId]
+        call = self.activeCalls.get(callId)
+        if call != None:
+            call.answered = False
+            call.active = False
+            self._removeCall(call)
+
+    def _removeCall(self, call):
+        """ Removes the specified call from the active calls (if it is still present) """
+        if self.activeCalls.get(call.id) is call:
+            self.activeCalls.pop(call.id, None)
 
     def _handleCallRejected(self, regexMatch, callId=None):
         """ Handler for rejected (unanswered calls being ended)
@@ -1301,8 +1314,7 @@ class Call(object):
             self._gsmModem.write('ATH')
             self.answered = False
             self.active = False
-        if self.id in self._gsmModem.activeCalls:
-            del self._gsmModem.activeCalls[self.id]
+        self._gsmModem._removeCall(self)
 
 
 class IncomingCall(Call):
-- 
2.43.0


From 9fc4fec6b14b7de6a5298b242b8d6ecae572003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:28 +0000
Subject: [PATCH 19/95] fix: keep DTMF command and support per modem
 (connecting one modem changed them for all others)

---
 gsmmodem/modem.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index f395cb4..181fac6 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -154,6 +154,8 @@ class GsmModem(SerialComms):
         self._mustPollCallStatus = False # whether or not the modem must be polled for outgoing call status updates
         self._pollCallStatusRegex = None # Regular expression used when polling outgoing call status
         self._writeWait = 0 # Time (in seconds to wait after writing a command (adjusted when 515 errors are detected)
+        self._dtmfCommandBase = Call.STANDARD_DTMF_COMMAND_BASE # Base command used by this modem for sending DTMF tones
+        self._dtmfSupport = False # Whether or not this modem can send DTMF tones in calls
         self._smsTextMode = False # Storage variable for the smsTextMode property
         self._smscNumber = None # Default SMSC number
         self._smsRef = 0 # Sent SMS reference counter
@@ -207,7 +209,7 @@ class GsmModem(SerialComms):
             if '^CVOICE' in commands:
                 self.write('AT^CVOICE=0', parseError=False) # Enable voice calls
             if '+VTS' in commands: # Check for DTMF sending support
-                Call.dtmfSupport = True
+                self._dtmfSupport = Call.dtmfSupport = True
             elif '^DTMF' in commands:
                 # Huawei modems use ^DTMF to send DTMF tones
                 callUpdateTableHint = 1 # Huawei
@@ -256,8 +258,8 @@ class GsmModem(SerialComms):
                                        (re.compile(r'^\^CEND:(\d),(\d),(\d)+,(\d)+$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
-            Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
-            Call.dtmfSupport = True
+            self._dtmfCommandBase = Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
+            self._dtmfSupport = Call.dtmfSupport = True
         elif callUpdateTableHint == 2:
             # Wavecom modem: +WIND notifications supported
             self.log.info('Loading Wavecom call state update table')
@@ -267,7 +269,7 @@ class GsmModem(SerialComms):
             self._waitForAtdResponse = False # Wavecom modems return OK only when the call is answered
             self._mustPollCallStatus = False
             if commands == None: # older modem, assume it has standard DTMF support
-                Call.dtmfSupport = True
+                self._dtmfSupport = Call.dtmfSupport = True
         elif callUpdateTableHint == 3: # ZTE
             # Use ZTE notifications ("CONNECT"/"HANGUP", but no "call initiated" notification)
             self.log.info('Loading ZTE call state update table')
@@ -278,7 +280,7 @@ class GsmModem(SerialComms):
             self._mustPollCallStatus = False
             self._waitForCallInitUpdate = False # ZTE modems do not provide "call initiated" updates
             if commands == None: # ZTE uses standard +VTS for DTMF
-                Call.dtmfSupport = True
+                self._dtmfSupport = Call.dtmfSupport = True
         else:
             # Unknown modem - we do not know what its call updates look like. Use polling instead
             self.log.info('Unknown/generic modem type - will use polling for call state updates')
@@ -1243,7 +1245,9 @@ class GsmModem(SerialComms):
 class Call(object):
     """ A voice call """
     
-    DTMF_COMMAND_BASE = '+VTS='
+    STANDARD_DTMF_COMMAND_BASE = '+VTS='
+    # Base DTMF command of the modem that was connected last (each modem's calls use that modem's own command)
+    DTMF_COMMAND_BASE = STANDARD_DTMF_COMMAND_BASE
     dtmfSupport = False # Indicates whether or not DTMF tones can be sent in calls
     
     def __init__(self, gsmModem, callId, callType, number, callStatusUpdateCallbackFunc=None):
@@ -1252,6 +1256,7 @@ class Call(object):
         :param number: The number that is being called        
         """
         self._gsmModem = weakref.proxy(gsmModem)
+        self.dtmfSupport = gsmModem._dtmfSupport
         self._callStatusUpdateCallbackFunc = callStatusUpdateCallbackFunc
         # Unique ID of this call
         self.id = callId
@@ -1285,7 +1290,7 @@ class Call(object):
         :raise InvalidStateException: if the call has not been answered, or is ended while the command is still executing
         """        
         if self.answered:
-            dtmfCommandBase = self.DTMF_COMMAND_BASE.format(cid=self.id)
+            dtmfCommandBase = self._gsmModem._dtmfCommandBase.format(cid=self.id)
             toneLen = len(tones)
             if len(tones) > 1:
                 cmd = ('AT{0}{1};{0}' + ';{0}'.join(tones[1:])).format(dtmfCommandBase, tones[0])                
-- 
2.43.0


From e347abd3bd23569b62d1314559d907caa6be7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:16 +0000
Subject: [PATCH 20/95] fix: handle +CUSD notifications that have no message;
 do not let a later one replace a USSD response

---
 gsmmodem/modem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 181fac6..0df1ba8 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -126,7 +126,7 @@ class GsmModem(SerialComms):
     # Used for parsing SMS message reads (PDU mode)
     CMGR_REGEX_PDU = None
     # Used for parsing USSD event notifications
-    CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d),"(.*?)",(\d+)', re.DOTALL)
+    CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d)(?:,"(.*?)",(\d+))?', re.DOTALL)
     # Used for parsing SMS status reports
     CDSI_REGEX = re.compile(r'\+CDSI:\s*"([^"]+)",(\d+)$')
     
@@ -911,7 +911,8 @@ class GsmModem(SerialComms):
         """ :return: True if the text of the last USSD message in the specified lines continues on the next line """
         text = '\r\n'.join(lines)
         text = text[text.rfind('+CUSD'):]
-        return '"' in text and not self.CUSD_REGEX.match(text)
+        cusdMatch = self.CUSD_REGEX.match(text)
+        return cusdMatch != None and cusdMatch.group(2) == None and '"' in text
     
     def _handleIncomingCall(self, ringLine, lines):
         self.log.debug('Handling incoming call')
@@ -1151,11 +1152,12 @@ class GsmModem(SerialComms):
     
     def _handleUssd(self, lines):
         """ Handler for USSD event notification line(s) """
-        if self._ussdSessionEvent:
+        ussdSessionEvent = self._ussdSessionEvent
+        if ussdSessionEvent and not ussdSessionEvent.is_set():
             # A sendUssd() call is waiting for this response - parse it
             self._ussdResponse = self._parseCusdResponse(lines)
             # Notify waiting thread
-            self._ussdSessionEvent.set()
+            ussdSessionEvent.set()
     
     def _parseCusdResponse(self, lines):
         """ Parses one or more +CUSD notification lines (for USSD)
-- 
2.43.0


From 6af16c3a278fa66fd9e69eaded77804bc95a6326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 21/95] fix: ignore answer notifications of unknown calls, and
 call notifications that race with the end of dial()

---
 gsmmodem/modem.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 0df1ba8..2422c67 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -967,7 +967,8 @@ class GsmModem(SerialComms):
     
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
-        if self._dialEvent:
+        dialEvent = self._dialEvent
+        if dialEvent:
             if regexMatch:
                 groups = regexMatch.groups()
                 # Set self._dialReponse to (callId, callType)
@@ -977,15 +978,16 @@ class GsmModem(SerialComms):
                     self._dialResponse = (int(groups[0]), 1) # assume call type: VOICE
             else:
                 self._dialResponse = callId, callType
-            self._dialEvent.set()
+            dialEvent.set()
                 
     def _handleCallAnswered(self, regexMatch, callId=None):
         """ Handler for "outgoing call answered" event notification line """
         if regexMatch:
             groups = regexMatch.groups()
             if len(groups) > 1:
-                callId = int(groups[0])
-                self.activeCalls[callId].answered = True
+                call = self.activeCalls.get(int(groups[0]))
+                if call != None:
+                    call.answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
                 for call in list(dictValuesIter(self.activeCalls)):
@@ -994,7 +996,9 @@ class GsmModem(SerialComms):
                         return
         else:
             # Use supplied values
-            self.activeCalls[callId].answered = True
+            call = self.activeCalls.get(callId)
+            if call != None:
+                call.answered = True
 
     def _handleCallEnded(self, regexMatch, callId=None, filterUnanswered=False):
         if regexMatch:
-- 
2.43.0


From bbedb96b61267635a77a3fd1c248490b5a60716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:50 +0000
Subject: [PATCH 22/95] fix: do not let other commands interleave with sending
 an SMS or with operations that switch the SMS memory

---
 gsmmodem/modem.py | 65 +++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 2422c67..4c723c6 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -642,23 +642,24 @@ class GsmModem(SerialComms):
         :raise CommandError: if an error occurs while attempting to send the message
         :raise TimeoutException: if the operation times out
         """
-        if self._smsTextMode:
-            self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
-            result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
-        else:
-            pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
-            for pdu in pdus:
-                self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
-                result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
-        if result == None:
-            raise CommandError('Modem did not respond with +CMGS response')
-        reference = int(result[7:])
-        self._smsRef = reference + 1
-        if self._smsRef > 255:
-            self._smsRef = 0
-        sms = SentSms(destination, text, reference)
-        # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
-        self.sentSms[reference] = sms
+        with self._txLock: # No other command may be written between a +CMGS command and its message body
+            if self._smsTextMode:
+                self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
+                result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
+            else:
+                pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
+                for pdu in pdus:
+                    self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
+                    result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
+            if result == None:
+                raise CommandError('Modem did not respond with +CMGS response')
+            reference = int(result[7:])
+            self._smsRef = reference + 1
+            if self._smsRef > 255:
+                self._smsRef = 0
+            sms = SentSms(destination, text, reference)
+            # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
+            self.sentSms[reference] = sms
         if waitForDeliveryReport:
             self._smsStatusReportEvent = threading.Event()
             if self._smsStatusReportEvent.wait(deliveryTimeout):
@@ -779,6 +780,11 @@ class GsmModem(SerialComms):
         :return: A list of Sms objects containing the messages read
         :rtype: list
         """
+        with self._txLock: # Make sure messages are read and deleted in the same memory
+            return self._listStoredSms(status, memory, delete)
+
+    def _listStoredSms(self, status, memory, delete):
+        """ Implementation of listStoredSms() """
         self._setSmsMemory(readDelete=memory)
         messages = []
         delMessages = set()
@@ -1038,8 +1044,9 @@ class GsmModem(SerialComms):
         if cmtiMatch:
             msgMemory = cmtiMatch.group(1)
             msgIndex = cmtiMatch.group(2)
-            sms = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            with self._txLock: # Make sure the message is deleted from the memory it was read from
+                sms = self.readStoredSms(msgIndex, msgMemory)
+                self.deleteStoredSms(msgIndex)
             self.smsReceivedCallback(sms)
     
     def _handleSmsStatusReport(self, notificationLine):
@@ -1049,8 +1056,9 @@ class GsmModem(SerialComms):
         if cdsiMatch:
             msgMemory = cdsiMatch.group(1)
             msgIndex = cdsiMatch.group(2)
-            report = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            with self._txLock: # Make sure the report is deleted from the memory it was read from
+                report = self.readStoredSms(msgIndex, msgMemory)
+                self.deleteStoredSms(msgIndex)
             # Update sent SMS status if possible            
             if report.reference in self.sentSms:                
                 self.sentSms[report.reference].report = report
@@ -1075,8 +1083,9 @@ class GsmModem(SerialComms):
         :rtype: subclass of gsmmodem.modem.Sms (either ReceivedSms or StatusReport)
         """
         # Switch to the correct memory type if required
-        self._setSmsMemory(readDelete=memory)
-        msgData = self.write('AT+CMGR={0}'.format(index))
+        with self._txLock:
+            self._setSmsMemory(readDelete=memory)
+            msgData = self.write('AT+CMGR={0}'.format(index))
         # Parse meta information
         if self._smsTextMode:
             cmgrMatch = self.CMGR_SM_DELIVER_REGEX_TEXT.match(msgData[0])
@@ -1125,8 +1134,9 @@ class GsmModem(SerialComms):
         
         :raise CommandError: if unable to delete the stored message
         """
-        self._setSmsMemory(readDelete=memory)
-        self.write('AT+CMGD={0},0'.format(index))
+        with self._txLock:
+            self._setSmsMemory(readDelete=memory)
+            self.write('AT+CMGD={0},0'.format(index))
     
     def deleteMultipleStoredSms(self, delFlag=4, memory=None):
         """ Deletes all SMS messages that have the specified read status.
@@ -1149,8 +1159,9 @@ class GsmModem(SerialComms):
         :raise CommandError: if unable to delete the stored messages
         """
         if 0 < delFlag <= 4:
-            self._setSmsMemory(readDelete=memory)
-            self.write('AT+CMGD=1,{0}'.format(delFlag))
+            with self._txLock:
+                self._setSmsMemory(readDelete=memory)
+                self.write('AT+CMGD=1,{0}'.format(delFlag))
         else:
             raise ValueError('"delFlag" must be in range [1,4]')
     
-- 
2.43.0


From 8585ca58e16f3aa8bad6eb86976a3d0a075951df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 23/95] fix: match SMS status reports to the sendSms() call
 waiting for that message's report

---
 gsmmodem/modem.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 4c723c6..a55961b 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -145,7 +145,7 @@ class GsmModem(SerialComms):
         self.sentSms = weakref.WeakValueDictionary()
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
-        self._smsStatusReportEvent = None # threading.Event
+        self._smsStatusReportEvents = {} # threading.Event for each sent SMS that is waiting for its status report, key is the message reference
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
@@ -660,12 +660,15 @@ class GsmModem(SerialComms):
             sms = SentSms(destination, text, reference)
             # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
             self.sentSms[reference] = sms
+            if waitForDeliveryReport:
+                # Set this up before the status report can be handled
+                reportEvent = threading.Event()
+                self._smsStatusReportEvents[reference] = reportEvent
         if waitForDeliveryReport:
-            self._smsStatusReportEvent = threading.Event()
-            if self._smsStatusReportEvent.wait(deliveryTimeout):
-                self._smsStatusReportEvent = None
-            else: # Response timed out
-                self._smsStatusReportEvent = None
+            reportReceived = reportEvent.wait(deliveryTimeout)
+            if self._smsStatusReportEvents.get(reference) is reportEvent:
+                self._smsStatusReportEvents.pop(reference, None)
+            if not reportReceived: # Response timed out
                 raise TimeoutException()
         return sms
 
@@ -1060,11 +1063,13 @@ class GsmModem(SerialComms):
                 report = self.readStoredSms(msgIndex, msgMemory)
                 self.deleteStoredSms(msgIndex)
             # Update sent SMS status if possible            
-            if report.reference in self.sentSms:                
-                self.sentSms[report.reference].report = report
-            if self._smsStatusReportEvent:                
+            sms = self.sentSms.get(report.reference)
+            if sms != None:
+                sms.report = report
+            reportEvent = self._smsStatusReportEvents.pop(report.reference, None)
+            if reportEvent != None:
                 # A sendSms() call is waiting for this response - notify waiting thread
-                self._smsStatusReportEvent.set()
+                reportEvent.set()
             else:
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
-- 
2.43.0


From b03d1fd496b259d1c41e0bad544fda5a31e064ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 24/95] fix: do not misattribute, skip or delete listed
 messages because of an unreadable, unsupported or empty message

---
 gsmmodem/modem.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a55961b..df5bad5 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -791,8 +791,10 @@ class GsmModem(SerialComms):
         self._setSmsMemory(readDelete=memory)
         messages = []
         delMessages = set()
+        numListed = 0 # amount of messages listed by the modem (some of them may not be readable)
         if self._smsTextMode:
             cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
+            otherCmglRegex = re.compile(r'^\+CMGL: \d+,"(?:REC|STO) [A-Z]+",') # messages that have not been received, or status reports
             for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
                 if status == val:
                     statusStr = key
@@ -804,19 +806,20 @@ class GsmModem(SerialComms):
             msgIndex = msgStatus = number = msgTime = None
             for line in result:
                 cmglMatch = cmglRegex.match(line)                
-                if cmglMatch:
+                if cmglMatch or otherCmglRegex.match(line):
                     # New message; save old one if applicable
-                    if msgIndex != None and len(msgLines) > 0:
+                    numListed += 1
+                    if msgIndex != None:
                         msgText = '\n'.join(msgLines)
                         msgLines = []
                         messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
                         delMessages.add(int(msgIndex))
-                    msgIndex, msgStatus, number, msgTime = cmglMatch.groups()
+                    msgIndex, msgStatus, number, msgTime = cmglMatch.groups() if cmglMatch else (None, None, None, None)
                     msgLines = []
                 else:
                     if line != 'OK':
                         msgLines.append(line)
-            if msgIndex != None and len(msgLines) > 0:
+            if msgIndex != None:
                 msgText = '\n'.join(msgLines)
                 msgLines = []
                 messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
@@ -826,13 +829,13 @@ class GsmModem(SerialComms):
             readPdu = False
             result = self.write('AT+CMGL={0}'.format(status))
             for line in result:
-                if not readPdu:
-                    cmglMatch = cmglRegex.match(line)
-                    if cmglMatch:
-                        msgIndex = int(cmglMatch.group(1))
-                        msgStat = int(cmglMatch.group(2))
-                        readPdu = True
-                else:
+                cmglMatch = cmglRegex.match(line)
+                if cmglMatch:
+                    msgIndex = int(cmglMatch.group(1))
+                    msgStat = int(cmglMatch.group(2))
+                    numListed += 1
+                    readPdu = True
+                elif readPdu:
                     try:
                         smsDict = decodeSmsPdu(line)
                     except EncodingError:
@@ -848,7 +851,7 @@ class GsmModem(SerialComms):
                         delMessages.add(msgIndex)
                         readPdu = False
         if delete:
-            if status == Sms.STATUS_ALL:
+            if status == Sms.STATUS_ALL and len(messages) == numListed:
                 # Delete all messages
                 self.deleteMultipleStoredSms()
             else:
-- 
2.43.0


From 850af2f805bd4ff8721b9c400559ca80d8561e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:19 +0000
Subject: [PATCH 25/95] fix: handle SMS notifications that are received while
 waiting for the response of a command

---
 gsmmodem/modem.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index df5bad5..1d7bc1a 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -412,7 +412,14 @@ class GsmModem(SerialComms):
         :rtype: list
         """
         self.log.debug('write: %s', data)
-        responseLines = super(GsmModem, self).write(data + writeTerm, waitForResponse=waitForResponse, timeout=timeout, expectedResponseTermSeq=expectedResponseTermSeq)
+        try:
+            responseLines = super(GsmModem, self).write(data + writeTerm, waitForResponse=waitForResponse, timeout=timeout, expectedResponseTermSeq=expectedResponseTermSeq)
+        except TimeoutException as e:
+            if e.data != None:
+                self._extractSmsNotifications(data, e.data)
+            raise
+        if waitForResponse:
+            self._extractSmsNotifications(data, responseLines)
         if self._writeWait > 0: # Sleep a bit if required (some older modems suffer under load)            
             time.sleep(self._writeWait)
         if waitForResponse:
@@ -448,6 +455,19 @@ class GsmModem(SerialComms):
                     raise CommandError(data + '({0})'.format(cmdStatusLine))
             return responseLines
 
+    def _extractSmsNotifications(self, command, responseLines):
+        """ Removes new SMS/status report indications from the response to an unrelated command, and handles them
+        
+        Such a notification is lost (and its message never read) otherwise if the modem issues it after
+        a command has been written, but before it has responded to the command.
+        """
+        if self._smsTextMode and (command.startswith('AT+CMGR') or command.startswith('AT+CMGL')):
+            return # Response contains message text
+        notifications = [line for line in responseLines if self.CMTI_REGEX.match(line) or self.CDSI_REGEX.match(line)]
+        if len(notifications) > 0:
+            responseLines[:] = [line for line in responseLines if line not in notifications]
+            self._handleModemNotification(notifications)
+
     @property
     def signalStrength(self):
         """ Checks the modem's cellular network signal strength
-- 
2.43.0


From dd49459af3f0a7beccc95dec8d62994f9d8f35ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:50 +0000
Subject: [PATCH 26/95] fix: iterating over a Trie raised RuntimeError in
 Python 3.7+

---
 tools/gsmtermlib/trie.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 184a2fd..323599d 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -182,5 +182,4 @@ class Trie(object):
     def __iter__(self):
         for k in list(self.keys()):
             yield k
-        raise StopIteration
     
\ No newline at end of file
-- 
2.43.0


From 26f01f13d5a20f691ccb58508cd8e030d5cf3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 27/95] fix: keep existing Trie keys when adding a prefix of
 one; common prefixes of keys that are prefixes or were deleted

---
 tools/gsmtermlib/trie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 323599d..86a8f41 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -25,6 +25,9 @@ class Trie(object):
     
         if len(key) == 0:
             # All of the original key's chars have been nibbled away            
+            if self.key != None and len(self.key) > 0:
+                # This was a "leaf" previously - move its current value to a new branch
+                self.slots[self.key[0]] = Trie(self.key[1:], self.value)
             self.value = value
             self.key = ''
             return        
@@ -73,6 +76,8 @@ class Trie(object):
                     del self.slots[c] # Remove the node
             else:
                 del trie[key[1:]]
+                if trie.key == None and len(trie.slots) == 0:
+                    del self.slots[c] # Nothing left in this branch
         else:
             raise KeyError(key)
                 
@@ -167,7 +172,7 @@ class Trie(object):
                     return self.slots[c]._longestCommonPrefix('', prefix + c)
                 else:
                     return prefix
-        elif self.key != None:
+        elif self.key != None and len(self.key) > 0:
             if self.key.startswith(key):
                 return prefix + self.key
             else:
-- 
2.43.0


From 2b0e3a6f789aa8c109d9838454e573532349fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:30 +0000
Subject: [PATCH 28/95] fix: terminal command completion erased lower-case
 input, and failed for unknown commands ending in '='

---
 tools/gsmtermlib/terminal.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 4bc665d..00eea66 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -536,11 +536,8 @@ class GsmTerm(RawTerm):
         matches = self.completion.keys(prefix)
         matchLen = len(matches)        
         if matchLen == 0 and prefix[-1] == '=':
-            try:                
-                command = prefix[:-1]
-            except KeyError:
-                pass                        
-            else:
+            command = prefix[:-1]
+            if command in self.completion:
                 self.__printCommandSyntax(command)
         elif matchLen > 0:                        
             if matchLen == 1:
@@ -554,7 +551,7 @@ class GsmTerm(RawTerm):
                     self._refreshInputPrompt(len(self.inputBuffer))
                 return
             else:
-                commonPrefix = self.completion.longestCommonPrefix(''.join(self.inputBuffer))
+                commonPrefix = self.completion.longestCommonPrefix(prefix)
                 self.inputBuffer = list(commonPrefix)
                 self.cursorPos = len(self.inputBuffer)
                 if matchLen > 20:
-- 
2.43.0


From f6619e9974add06b50c8a43f36362dfd81e00a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:20 +0000
Subject: [PATCH 29/95] fix: read terminal keys as str in Python 3, keep pasted
 text, and restore the terminal on exit

---
 tools/gsmtermlib/terminal.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 00eea66..677b5de 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -9,7 +9,7 @@ Note: The "Console" object was copied from pySerial's miniterm.py code
 """
 
 from __future__ import print_function
-import os, sys, threading, time
+import os, sys, threading, time, atexit
 import serial
 
 from gsmmodem.serial_comms import SerialComms
@@ -70,6 +70,7 @@ elif os.name == 'posix':
         
         def __init__(self):
             self.fd = sys.stdin.fileno()
+            self.pendingKeys = [] # keys that have been read, but not yet returned by getkey()
 
         def setup(self):
             self.old = termios.tcgetattr(self.fd)
@@ -84,10 +85,18 @@ elif os.name == 'posix':
 #            tty.setraw(self.fd)            
 
         def getkey(self):
+            if len(self.pendingKeys) > 0:
+                return self.pendingKeys.pop(0)
             c = os.read(self.fd, 4)
             #print (len(c))
             #for a in c:
             #    print('rx:',ord(a))           
+            if not isinstance(c, str): # Python 3
+                c = c.decode('utf-8', 'replace')
+            if len(c) > 1 and c[0] != chr(27):
+                # More than one key has been read (e.g. pasted text)
+                self.pendingKeys.extend(c[1:])
+                c = c[0]
             return c
 
         def cleanup(self):
@@ -99,7 +108,7 @@ elif os.name == 'posix':
         console.cleanup()
 
     console.setup()
-    sys.exitfunc = cleanup_console      # terminal modes have to be restored on exit...
+    atexit.register(cleanup_console)      # terminal modes have to be restored on exit...
 
 else:
     raise NotImplementedError("Sorry no implementation for your platform (%s) available." % sys.platform)
-- 
2.43.0


From 68b38316c4faf313083bb9d0ea5b5fc1ce872315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:09 +0000
Subject: [PATCH 30/95] fix: terminal entered SMS typing mode even if the modem
 rejected the +CMGS command

---
 tools/gsmtermlib/terminal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 677b5de..7146f75 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -466,6 +466,11 @@ class GsmTerm(RawTerm):
                     except TimeoutException:
                         self._typingSms = False                        
                     else:
+                        if not response[-1].endswith('> '):
+                            # Command was rejected by the modem
+                            self._typingSms = False
+                            self._handleModemNotification(response)
+                            return
                         sys.stdout.write(self._color(self.COLOR_YELLOW, 'Type your SMS message, and press CTRL+Z to send it or press ESC to cancel.\n'))                        
                         self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[0])
                     self._refreshInputPrompt()                        
-- 
2.43.0


From 82edf2fe428f17d3ea6e7ec287a0c7b4b7602fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 31/95] fix: sendsms.py failed in Python 3 because raw_input()
 does not exist

---
 tools/sendsms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/sendsms.py b/tools/sendsms.py
index 31c42bd..1a66759 100755
--- a/tools/sendsms.py
+++ b/tools/sendsms.py
@@ -9,6 +9,9 @@ Simple script to send an SMS message
 from __future__ import print_function
 import sys, logging
 
+if sys.version_info[0] >= 3:
+    raw_input = input
+
 from gsmmodem.modem import GsmModem, SentSms
 from gsmmodem.exceptions import TimeoutException, PinRequiredError, IncorrectPinError
 
-- 
2.43.0


From 8ae073d58ab55a9f4710bc546e63d9e517da55c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 32/95] fix: incoming calls of other types than voice were not
 announced (KeyError in the notification thread)

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1d7bc1a..5923db1 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1380,7 +1380,7 @@ class IncomingCall(Call):
         :param callType: Type of the incoming call (VOICE, FAX, DATA, etc)
         """
         if type(callType) == str:
-            callType = self.CALL_TYPE_MAP[callType] 
+            callType = self.CALL_TYPE_MAP.get(callType, callType) # other types (FAX, etc) are left as is
         super(IncomingCall, self).__init__(gsmModem, callId, callType, number)        
         # Type attribute of the incoming call
         self.ton = ton
-- 
2.43.0


From 4cf0b1908265acbae83fb6a2c623c250171b0df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:38 +0000
Subject: [PATCH 33/95] fix: GSM-7 alphabet had a backtick instead of the
 section sign at 0x5F

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 1bb96c6..de1e83b 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -25,7 +25,7 @@ else: #pragma: no cover
     rawStrToByteArray = bytearray
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
-GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
+GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà')
 GSM7_EXTENDED = {'\x0c': chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
-- 
2.43.0


From 2390e6d2cf9fafbda1ad99c74ff29186fe520e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:23 +0000
Subject: [PATCH 34/95] fix: announced TPDU length included the service centre
 address

---
 gsmmodem/pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index de1e83b..6a6d7bc 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -306,6 +306,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
             pdu.extend(_encodeAddressField(smsc, smscField=True))
         else:
             pdu.append(0x00) # Don't supply an SMSC number - use the one configured in the device 
+        smscLen = len(pdu)
     
         udh = bytearray()
         if concatHeaderPrototype != None:
@@ -348,7 +349,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         else:
             pdu.append(userDataLength)
         pdu.extend(userData) # User Data (message payload)
-        tpdu_length = len(pdu) - 1
+        tpdu_length = len(pdu) - smscLen # the SMSC address is not part of the TPDU
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
-- 
2.43.0


From fa41a858a35b07c35369469ed077f418617c090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 35/95] fix: 8-bit and UCS2 messages of the message class and
 message waiting coding groups were decoded as GSM-7

---
 gsmmodem/pdu.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 6a6d7bc..1dd3d1f 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -567,11 +567,15 @@ def _encodeTimestamp(timestamp):
     return encodeSemiOctets(dateStr)
 
 def _decodeDataCoding(octet):
-    if octet & 0xC0 == 0:
+    if octet & 0x80 == 0: # General data coding (may be marked for automatic deletion)
         #compressed = octect & 0x20
         alphabet = (octet & 0x0C) >> 2
         return alphabet # 0x00 == GSM-7, 0x01 == 8-bit data, 0x02 == UCS2
-    # We ignore other coding groups
+    elif octet & 0xF0 == 0xE0: # Message waiting indication; store message (UCS2)
+        return 0x02
+    elif octet & 0xF4 == 0xF4: # Data coding/message class; 8-bit data
+        return 0x01
+    # All other coding groups use (or default to) GSM-7
     return 0    
 
 def _decodeAddressField(byteIter, smscField=False, log=False):
-- 
2.43.0


From 09225c00486761e053ea9ac57c552dfda632d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:59 +0000
Subject: [PATCH 36/95] fix: a device failure while checking for more data
 ended the read thread without notifying the fatal error handler

---
 gsmmodem/serial_comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 8dcf1c9..1c2df92 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -148,7 +148,7 @@ class SerialComms(object):
                 elif self.serial.inWaiting() == 0:
                     #' <RX timeout>'
                     self._notifyPending()
-        except serial.SerialException as e:
+        except (serial.SerialException, EnvironmentError) as e: # (checking for more data raises OSError/IOError)
             self.alive = False
             try:
                 self.serial.close()
-- 
2.43.0


From 7ba13259fd0a51e69da6f210bd12798aac70880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:00 +0000
Subject: [PATCH 37/95] fix: the SIM PIN was also sent if the modem was waiting
 for another code (PUK, PIN2, etc)

---
 gsmmodem/modem.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5923db1..b096b77 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -6,7 +6,7 @@ import sys, re, logging, weakref, time, threading, abc, codecs
 from datetime import datetime
 
 from .serial_comms import SerialComms
-from .exceptions import CommandError, InvalidStateException, CmeError, CmsError, InterruptedException, TimeoutException, PinRequiredError, IncorrectPinError, SmscNumberUnknownError
+from .exceptions import CommandError, InvalidStateException, CmeError, CmsError, InterruptedException, TimeoutException, PinRequiredError, IncorrectPinError, PukRequiredError, SmscNumberUnknownError
 from .pdu import encodeSmsSubmitPdu, decodeSmsPdu
 from .util import SimpleOffsetTzInfo, lineStartingWith, allLinesMatchingPattern, parseTextModeTimeStr
 
@@ -380,8 +380,11 @@ class GsmModem(SerialComms):
             else:
                 # Nothing read (real timeout)
                 raise timeout
-        if cpinResponse != '+CPIN: READY':
-            if pin != None:
+        simState = cpinResponse[6:].strip() if cpinResponse != None else None
+        if simState == 'SIM PUK':
+            raise PukRequiredError('AT+CPIN')
+        elif simState != 'READY':
+            if pin != None and simState == 'SIM PIN': # never enter the PIN if the modem is waiting for another code
                 self.write('AT+CPIN="{0}"'.format(pin))
             else:
                 raise PinRequiredError('AT+CPIN')
-- 
2.43.0


From c982945627107609ada320d42f67895e78a7dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:49 +0000
Subject: [PATCH 38/95] fix: connect() raised ValueError/TypeError for +CFUN
 responses with more than one value

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b096b77..fc80468 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -189,8 +189,8 @@ class GsmModem(SerialComms):
             pinCheckComplete = False
         self.write('ATE0') # echo off
         try:
-            cfun = int(lineStartingWith('+CFUN:', self.write('AT+CFUN?'))[7:]) # example response: +CFUN: 1
-            if cfun != 1:
+            cfunMatch = lineMatching(r'^\+CFUN:\s*(\d+)', self.write('AT+CFUN?')) # example response: +CFUN: 1
+            if cfunMatch and int(cfunMatch.group(1)) != 1:
                 self.write('AT+CFUN=1')
         except CommandError:
             pass # just ignore if the +CFUN command isn't supported
-- 
2.43.0


From e020ed9885e60796ff854efad2e2178c3e7f95db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:38 +0000
Subject: [PATCH 39/95] fix: connect() failed if the optional +CGMI or +CSCA
 queries are not supported

---
 gsmmodem/modem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index fc80468..45f2130 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -239,7 +239,11 @@ class GsmModem(SerialComms):
 
         # Attempt to identify modem type directly (if not already) - for outgoing call status updates
         if callUpdateTableHint == 0:
-            if self.manufacturer.lower() == 'huawei':
+            try:
+                manufacturer = self.manufacturer.lower()
+            except CommandError:
+                manufacturer = None # +CGMI not supported
+            if manufacturer == 'huawei':
                 callUpdateTableHint = 1 # huawei
             else:
                 # See if this is a ZTE modem that has not yet been identified based on supported commands
@@ -298,7 +302,10 @@ class GsmModem(SerialComms):
             self.write('AT+CSCA="{0}"'.format(self._smscNumber)) # Set default SMSC number
             currentSmscNumber = self._smscNumber
         else:
-            currentSmscNumber = self.smsc
+            try:
+                currentSmscNumber = self.smsc
+            except CommandError:
+                currentSmscNumber = None # +CSCA not supported
         # Some modems delete the SMSC number when setting text-mode SMS parameters; preserve it if needed
         if currentSmscNumber != None:
             self._smscNumber = None # clear cache
-- 
2.43.0


From 8f7622cfda54e5dcd03e1b4f90e444f3b3b65066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:20 +0000
Subject: [PATCH 40/95] fix: connect() failed for modems that do not have any
 of the preferred message memory types

---
 gsmmodem/modem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 45f2130..9b38589 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -335,7 +335,8 @@ class GsmModem(SerialComms):
                 preferredMemoryTypes = ('"ME"', '"SM"', '"SR"')
                 cpmsItems = [''] * len(cpmsSupport)
                 for i in xrange(len(cpmsSupport)):
-                    for memType in preferredMemoryTypes:
+                    # Fall back to whatever the modem has if none of the preferred types are available
+                    for memType in preferredMemoryTypes + tuple(re.findall(r'"[^"]+"', cpmsSupport[i])):
                         if memType in cpmsSupport[i]:
                             if i == 0:
                                 self._smsMemReadDelete = memType
-- 
2.43.0


From ed345f51172cbd959a6b0317af373b5ef41e4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:44 +0000
Subject: [PATCH 41/95] fix: new SMS notifications issued just before the
 response to AT+CMGR/AT+CMGL were lost in text mode

---
 gsmmodem/modem.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 9b38589..f6f2664 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -472,11 +472,16 @@ class GsmModem(SerialComms):
         Such a notification is lost (and its message never read) otherwise if the modem issues it after
         a command has been written, but before it has responded to the command.
         """
+        end = len(responseLines)
         if self._smsTextMode and (command.startswith('AT+CMGR') or command.startswith('AT+CMGL')):
-            return # Response contains message text
-        notifications = [line for line in responseLines if self.CMTI_REGEX.match(line) or self.CDSI_REGEX.match(line)]
+            # Response contains message text (which must be left alone) from its first header onwards
+            for i, line in enumerate(responseLines):
+                if line.startswith('+CMGR') or line.startswith('+CMGL'):
+                    end = i
+                    break
+        notifications = [line for line in responseLines[:end] if self.CMTI_REGEX.match(line) or self.CDSI_REGEX.match(line)]
         if len(notifications) > 0:
-            responseLines[:] = [line for line in responseLines if line not in notifications]
+            responseLines[:end] = [line for line in responseLines[:end] if line not in notifications]
             self._handleModemNotification(notifications)
 
     @property
-- 
2.43.0


From 7c0641f0e355a54c211906d3bef661ecc7c1b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:17 +0000
Subject: [PATCH 42/95] fix: sendSms() failed (or used a wrong reference) after
 sending if the +CMGS response had no space or more than one value

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index f6f2664..20145de 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -689,7 +689,7 @@ class GsmModem(SerialComms):
                     result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
             if result == None:
                 raise CommandError('Modem did not respond with +CMGS response')
-            reference = int(result[7:])
+            reference = int(result[6:].split(',')[0]) # the reference may be followed by a time stamp or acknowledgment PDU
             self._smsRef = reference + 1
             if self._smsRef > 255:
                 self._smsRef = 0
-- 
2.43.0


From 10d888e3e8037908df8b3841920281553e27e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:31 +0000
Subject: [PATCH 43/95] fix: reading an SMS or the signal strength failed if
 the modem issued another notification just before the response

---
 gsmmodem/modem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 20145de..1b24aa9 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -493,7 +493,7 @@ class GsmModem(SerialComms):
         :return: The network signal strength as an integer between 0 and 99, or -1 if it is unknown
         :rtype: int
         """
-        csq = self.CSQ_REGEX.match(self.write('AT+CSQ')[0])
+        csq = lineMatching(self.CSQ_REGEX.pattern, self.write('AT+CSQ'))
         if csq:
             ss = int(csq.group(1))
             return ss if ss != 99 else -1
@@ -1130,6 +1130,9 @@ class GsmModem(SerialComms):
         with self._txLock:
             self._setSmsMemory(readDelete=memory)
             msgData = self.write('AT+CMGR={0}'.format(index))
+        # Ignore notifications that were issued just before the response
+        while len(msgData) > 1 and not msgData[0].startswith('+CMGR'):
+            msgData.pop(0)
         # Parse meta information
         if self._smsTextMode:
             cmgrMatch = self.CMGR_SM_DELIVER_REGEX_TEXT.match(msgData[0])
-- 
2.43.0


From 9523d2a4809cdbf6d9ea2589789e2c477e81df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:17 +0000
Subject: [PATCH 44/95] fix: listStoredSms() failed in PDU mode if a draft or
 sent message is stored along with the received messages

---
 gsmmodem/modem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1b24aa9..192af03 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -882,7 +882,10 @@ class GsmModem(SerialComms):
                         elif smsDict['type'] == 'SMS-STATUS-REPORT':
                             sms = StatusReport(self, int(msgStat), smsDict['reference'], smsDict['number'], smsDict['time'], smsDict['discharge'], smsDict['status'])
                         else:
-                            raise CommandError('Invalid PDU type for readStoredSms(): {0}'.format(smsDict['type']))
+                            # Message that was composed on the device, not received; leave it alone
+                            self.log.debug('Ignoring %s PDU in +CMGL response', smsDict['type'])
+                            readPdu = False
+                            continue
                         messages.append(sms)
                         delMessages.add(msgIndex)
                         readPdu = False
-- 
2.43.0


From 015b4a55a80ceff4f99549b5a99acfb72733db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:06 +0000
Subject: [PATCH 45/95] fix: text mode SMS messages from senders with a comma
 in their phonebook name could not be read

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 192af03..020c997 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -585,7 +585,7 @@ class GsmModem(SerialComms):
         """ Compiles regular expression used for parsing SMS messages based on current mode """
         if self._smsTextMode:
             if self.CMGR_SM_DELIVER_REGEX_TEXT == None:
-                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
+                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]+)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
                 self.CMGR_SM_REPORT_REGEXT_TEXT = re.compile(r'^\+CMGR: ([^,]*),\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
         elif self.CMGR_REGEX_PDU == None:
             self.CMGR_REGEX_PDU = re.compile(r'^\+CMGR: (\d*),"{0,1}([^"]*)"{0,1},(\d+)$')
@@ -829,7 +829,7 @@ class GsmModem(SerialComms):
         delMessages = set()
         numListed = 0 # amount of messages listed by the modem (some of them may not be readable)
         if self._smsTextMode:
-            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
+            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
             otherCmglRegex = re.compile(r'^\+CMGL: \d+,"(?:REC|STO) [A-Z]+",') # messages that have not been received, or status reports
             for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
                 if status == val:
-- 
2.43.0


From d229c2ddcf8c5b80de065568546c745a2a29fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:56 +0000
Subject: [PATCH 46/95] fix: processStoredSms() lost deleted messages if the
 callback raised an exception for an earlier message

---
 gsmmodem/modem.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 020c997..a79308e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -801,8 +801,15 @@ class GsmModem(SerialComms):
             states.insert(0, Sms.STATUS_RECEIVED_READ)
         for msgStatus in states:
             messages = self.listStoredSms(status=msgStatus, delete=True)
+            callbackError = None
             for sms in messages:
-                self.smsReceivedCallback(sms)
+                try:
+                    self.smsReceivedCallback(sms)
+                except Exception as e:
+                    # The messages have been deleted already; make sure that the rest of them are still processed
+                    callbackError = callbackError or e
+            if callbackError != None:
+                raise callbackError
 
     def listStoredSms(self, status=Sms.STATUS_ALL, memory=None, delete=False):
         """ Returns SMS messages currently stored on the device/SIM card.
-- 
2.43.0


From 24c69386ae4a4bf2a597d04a086b87e106fee136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:20 +0000
Subject: [PATCH 47/95] fix: listStoredSms() failed in text mode if a single
 message has an invalid timestamp

---
 gsmmodem/modem.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a79308e..e70b2b9 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -847,26 +847,28 @@ class GsmModem(SerialComms):
             result = self.write('AT+CMGL="{0}"'.format(statusStr))
             msgLines = []
             msgIndex = msgStatus = number = msgTime = None
+            def addMessage():
+                try:
+                    sms = ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), '\n'.join(msgLines))
+                except ValueError:
+                    self.log.debug('Discarding message with invalid timestamp from +CMGL response: %s', msgTime)
+                else:
+                    messages.append(sms)
+                    delMessages.add(int(msgIndex))
             for line in result:
                 cmglMatch = cmglRegex.match(line)                
                 if cmglMatch or otherCmglRegex.match(line):
                     # New message; save old one if applicable
                     numListed += 1
                     if msgIndex != None:
-                        msgText = '\n'.join(msgLines)
-                        msgLines = []
-                        messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-                        delMessages.add(int(msgIndex))
+                        addMessage()
                     msgIndex, msgStatus, number, msgTime = cmglMatch.groups() if cmglMatch else (None, None, None, None)
                     msgLines = []
                 else:
                     if line != 'OK':
                         msgLines.append(line)
             if msgIndex != None:
-                msgText = '\n'.join(msgLines)
-                msgLines = []
-                messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-                delMessages.add(int(msgIndex))
+                addMessage()
         else:
             cmglRegex = re.compile(r'^\+CMGL:\s*(\d+),\s*(\d+),.*$')
             readPdu = False
-- 
2.43.0


From ccaeb099c4ea7734f093eec991c6ea28abf69838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 48/95] fix: listStoredSms() did not return status reports in
 text mode (as it does in PDU mode)

---
 gsmmodem/modem.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e70b2b9..a54bded 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -838,6 +838,7 @@ class GsmModem(SerialComms):
         if self._smsTextMode:
             cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
             otherCmglRegex = re.compile(r'^\+CMGL: \d+,"(?:REC|STO) [A-Z]+",') # messages that have not been received, or status reports
+            reportCmglRegex = re.compile(r'^\+CMGL: (\d+),"([^"]+)",\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
             for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
                 if status == val:
                     statusStr = key
@@ -864,6 +865,16 @@ class GsmModem(SerialComms):
                         addMessage()
                     msgIndex, msgStatus, number, msgTime = cmglMatch.groups() if cmglMatch else (None, None, None, None)
                     msgLines = []
+                    reportMatch = reportCmglRegex.match(line)
+                    if reportMatch:
+                        reportIndex, reportStatus, reference, reportNumber, sentTime, deliverTime, deliverStatus = reportMatch.groups()
+                        try:
+                            report = StatusReport(self, Sms.TEXT_MODE_STATUS_MAP[reportStatus], int(reference), reportNumber, parseTextModeTimeStr(sentTime), parseTextModeTimeStr(deliverTime), int(deliverStatus))
+                        except ValueError:
+                            self.log.debug('Discarding status report with invalid timestamp from +CMGL response: %s', line)
+                        else:
+                            messages.append(report)
+                            delMessages.add(int(reportIndex))
                 else:
                     if line != 'OK':
                         msgLines.append(line)
-- 
2.43.0


From 3d276345ea30418239438b7e8bac0dfe58ccb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:47 +0000
Subject: [PATCH 49/95] fix: call and USSD notifications issued just before the
 response to another command were lost

---
 gsmmodem/modem.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a54bded..477b7ed 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -427,10 +427,10 @@ class GsmModem(SerialComms):
             responseLines = super(GsmModem, self).write(data + writeTerm, waitForResponse=waitForResponse, timeout=timeout, expectedResponseTermSeq=expectedResponseTermSeq)
         except TimeoutException as e:
             if e.data != None:
-                self._extractSmsNotifications(data, e.data)
+                self._extractNotifications(data, e.data)
             raise
         if waitForResponse:
-            self._extractSmsNotifications(data, responseLines)
+            self._extractNotifications(data, responseLines)
         if self._writeWait > 0: # Sleep a bit if required (some older modems suffer under load)            
             time.sleep(self._writeWait)
         if waitForResponse:
@@ -466,8 +466,8 @@ class GsmModem(SerialComms):
                     raise CommandError(data + '({0})'.format(cmdStatusLine))
             return responseLines
 
-    def _extractSmsNotifications(self, command, responseLines):
-        """ Removes new SMS/status report indications from the response to an unrelated command, and handles them
+    def _extractNotifications(self, command, responseLines):
+        """ Removes notifications (new SMS, status report, call and USSD) from the response to an unrelated command, and handles them
         
         Such a notification is lost (and its message never read) otherwise if the modem issues it after
         a command has been written, but before it has responded to the command.
@@ -479,9 +479,28 @@ class GsmModem(SerialComms):
                 if line.startswith('+CMGR') or line.startswith('+CMGL'):
                     end = i
                     break
-        notifications = [line for line in responseLines[:end] if self.CMTI_REGEX.match(line) or self.CDSI_REGEX.match(line)]
+        notifications = []
+        remaining = []
+        lines = responseLines[:end]
+        while len(lines) > 0:
+            line = lines.pop(0)
+            if self.CMTI_REGEX.match(line) or self.CDSI_REGEX.match(line):
+                notifications.append(line)
+            elif line == 'RING' or line.startswith('+CRING:'):
+                notifications.append(line)
+                if len(lines) > 0 and lines[0].startswith('+CLIP:'):
+                    notifications.append(lines.pop(0)) # caller ID
+            elif line.startswith('+CUSD:') and not command.startswith('AT+CUSD'):
+                ussdLines = [line]
+                while len(lines) > 1 and self._isIncompleteCusd(ussdLines):
+                    ussdLines.append(lines.pop(0))
+                notifications.extend(ussdLines)
+            elif line != 'OK' and any(updateRegex.match(line) for updateRegex, _ in self._callStatusUpdates):
+                notifications.append(line)
+            else:
+                remaining.append(line)
         if len(notifications) > 0:
-            responseLines[:end] = [line for line in responseLines[:end] if line not in notifications]
+            responseLines[:end] = remaining
             self._handleModemNotification(notifications)
 
     @property
-- 
2.43.0


From 430702d80b606bfb38e7047272397e6ecc3c5f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 50/95] fix: answering an incoming call that has been ended by
 the caller answered another call

---
 gsmmodem/modem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 477b7ed..9776601 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1106,6 +1106,8 @@ class GsmModem(SerialComms):
         if call != None:
             call.answered = False
             call.active = False
+            if isinstance(call, IncomingCall):
+                call.ringing = False # it can no longer be answered
             self._removeCall(call)
 
     def _removeCall(self, call):
-- 
2.43.0


From 45d3ee12be3854a35235b42055d6d4833337c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 51/95] fix: polling the status of an outgoing call was
 confused by other calls

Only the first +CLCC line was considered, and it was not checked whether it is about the call being polled: with another (for example an incoming) call in progress an outgoing call was never seen as set up, or was reported as answered or not ended because of the other call. A call that was answered at once was not seen as set up. After a local hangup, the status of the next call was also reported to the polling thread of the previous one.
---
 gsmmodem/modem.py | 50 ++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 9776601..b60754e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -791,13 +791,16 @@ class GsmModem(SerialComms):
 
         if self._mustPollCallStatus:
             # Fake a call notification by polling call status until the status indicates that the call is being dialed
-            threading.Thread(target=self._pollCallStatus, kwargs={'expectedState': 0, 'timeout': timeout}).start()
+            polledCall = [] # receives the call once it has been created
+            threading.Thread(target=self._pollCallStatus, kwargs={'expectedState': 0, 'timeout': timeout, 'polledCall': polledCall}).start()
 
         if self._dialEvent.wait(timeout):
             self._dialEvent = None
             callId, callType = self._dialResponse
             call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
             self.activeCalls[callId] = call
+            if self._mustPollCallStatus:
+                polledCall.append(call)
             return call
         else: # Call establishing timed out
             self._dialEvent = None
@@ -1302,12 +1305,14 @@ class GsmModem(SerialComms):
         """ Does nothing """
         self.log.debug('called with args: {0}'.format(args))
     
-    def _pollCallStatus(self, expectedState, callId=None, timeout=None):
+    def _pollCallStatus(self, expectedState, callId=None, timeout=None, polledCall=None):
         """ Poll the status of outgoing calls.    
         This is used for modems that do not have a known set of call status update notifications.
         
         :param expectedState: The internal state we are waiting for. 0 == initiated, 1 == answered, 2 = hangup
         :type expectedState: int
+        :param polledCall: List to which the call is added when it is created (after it has been initiated)
+        :type polledCall: list
         
         :raise TimeoutException: If a timeout was specified, and has occurred
         """
@@ -1317,27 +1322,32 @@ class GsmModem(SerialComms):
             time.sleep(0.5)
             if expectedState == 0: # Only call initializing can timeout
                 timeLeft -= 0.5
+            clcc = None
             try:
-                clcc = self._pollCallStatusRegex.match(self.write('AT+CLCC')[0])
-            except TimeoutException as timeout:
+                for line in self.write('AT+CLCC'):
+                    match = self._pollCallStatusRegex.match(line)
+                    # Only consider the call being polled: other calls may be in progress as well
+                    if match and int(match.group(2)) == 0 and (callId is None or int(match.group(1)) == callId): # Outgoing call
+                        if callId is not None or match.group(3) in '23' or type(self.activeCalls.get(int(match.group(1)))) != Call:
+                            clcc = match
+            except TimeoutException:
                 # Can happend if the call was ended during our time.sleep() call
-                clcc = None
+                pass
+            if polledCall and self.activeCalls.get(callId) is not polledCall[0]:
+                return # The call was hung up locally (its ID may be in use by another call already)
             if clcc:
-                direction = int(clcc.group(2))
-                if direction == 0: # Outgoing call
-                    # Determine call state
-                    stat = int(clcc.group(3))
-                    if expectedState == 0: # waiting for call initiated
-                        if stat == 2 or stat == 3: # Dialing or ringing ("alerting")                            
-                            callId = int(clcc.group(1))
-                            callType = int(clcc.group(4))
-                            self._handleCallInitiated(None, callId, callType) # if self_dialEvent is None, this does nothing
-                            expectedState = 1 # Now wait for call answer
-                    elif expectedState == 1: # waiting for call to be answered
-                        if stat == 0: # Call active
-                            callId = int(clcc.group(1))
-                            self._handleCallAnswered(None, callId)
-                            expectedState = 2 # Now wait for call hangup                            
+                # Determine call state
+                stat = int(clcc.group(3))
+                if expectedState == 0: # waiting for call initiated
+                    if stat in (0, 2, 3): # Dialing, ringing ("alerting"), or already answered
+                        callId = int(clcc.group(1))
+                        callType = int(clcc.group(4))
+                        self._handleCallInitiated(None, callId, callType) # if self_dialEvent is None, this does nothing
+                        expectedState = 1 # Now wait for call answer
+                elif expectedState == 1: # waiting for call to be answered
+                    if stat == 0: # Call active
+                        self._handleCallAnswered(None, callId)
+                        expectedState = 2 # Now wait for call hangup
             elif expectedState == 2 : # waiting for remote hangup
                 # Since there was no +CLCC response, the call is no longer active
                 callDone = True
-- 
2.43.0


From 2a45d2f9bb3df4418abefd93287b2a298204dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 52/95] fix: calls listed without number or with the name of
 the remote party were not recognized when polling call status

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b60754e..946b5b8 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -289,7 +289,7 @@ class GsmModem(SerialComms):
             # Unknown modem - we do not know what its call updates look like. Use polling instead
             self.log.info('Unknown/generic modem type - will use polling for call state updates')
             self._mustPollCallStatus = True
-            self._pollCallStatusRegex = re.compile('^\+CLCC:\s+(\d+),(\d),(\d),(\d),([^,]),"([^,]*)",(\d+)$')
+            self._pollCallStatusRegex = re.compile('^\+CLCC:\s*(\d+),(\d),(\d),(\d),([^,])(?:,"([^"]*)",(\d+).*)?$') # The number (and name) of the remote party are optional
             self._waitForAtdResponse = True # Most modems return OK immediately after issuing ATD
 
         # General meta-information setup
-- 
2.43.0


From e92ebe9d9e32c4c3e14924fce9bb9ef782701f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 53/95] fix: a call was still active when its status callback
 was told that it has ended

If the callback raised an exception, the call remained active and listed for ever.
---
 gsmmodem/modem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 946b5b8..736c4f5 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1107,11 +1107,11 @@ class GsmModem(SerialComms):
                             break
         call = self.activeCalls.get(callId)
         if call != None:
-            call.answered = False
             call.active = False
             if isinstance(call, IncomingCall):
                 call.ringing = False # it can no longer be answered
             self._removeCall(call)
+            call.answered = False # (runs the call's status update callback)
 
     def _removeCall(self, call):
         """ Removes the specified call from the active calls (if it is still present) """
@@ -1435,9 +1435,11 @@ class Call(object):
         """
         if self.active:
             self._gsmModem.write('ATH')
-            self.answered = False
             self.active = False
-        self._gsmModem._removeCall(self)
+            self._gsmModem._removeCall(self)
+            self.answered = False # (runs the status update callback)
+        else:
+            self._gsmModem._removeCall(self)
 
 
 class IncomingCall(Call):
-- 
2.43.0


From c2474e7b631049e7df034b4ccf5b55447966ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 54/95] fix: a status callback that blocks or raises an
 exception prevented a polled call from being seen as ended

The callback was run by the polling thread itself.
---
 gsmmodem/modem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 736c4f5..1fcdf16 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1346,7 +1346,8 @@ class GsmModem(SerialComms):
                         expectedState = 1 # Now wait for call answer
                 elif expectedState == 1: # waiting for call to be answered
                     if stat == 0: # Call active
-                        self._handleCallAnswered(None, callId)
+                        # Use a new thread (as for other notifications): the call's status callback may block, or raise an exception
+                        threading.Thread(target=self._handleCallAnswered, kwargs={'regexMatch': None, 'callId': callId}).start()
                         expectedState = 2 # Now wait for call hangup
             elif expectedState == 2 : # waiting for remote hangup
                 # Since there was no +CLCC response, the call is no longer active
-- 
2.43.0


From 4698faa03f9a0e37e13004c982726225691380f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 55/95] fix: polling of a previous call was confused by a call
 dialled right after it

If a call had ended and its ID was in use by another call before this was noticed, the call remained active for ever. If a call was not set up in time, polling continued and followed the next call instead.
---
 gsmmodem/modem.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1fcdf16..1357b05 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -804,6 +804,8 @@ class GsmModem(SerialComms):
             return call
         else: # Call establishing timed out
             self._dialEvent = None
+            if self._mustPollCallStatus:
+                polledCall.append(None)
             raise TimeoutException()
 
     def processStoredSms(self, unreadOnly=False):
@@ -1333,8 +1335,16 @@ class GsmModem(SerialComms):
             except TimeoutException:
                 # Can happend if the call was ended during our time.sleep() call
                 pass
-            if polledCall and self.activeCalls.get(callId) is not polledCall[0]:
-                return # The call was hung up locally (its ID may be in use by another call already)
+            if polledCall:
+                call = polledCall[0]
+                if call is None:
+                    return # The call was not set up in time
+                elif callId is not None and self.activeCalls.get(callId) is not call:
+                    # The call was hung up locally, or it has ended and its ID is in use by another call already
+                    if call.active:
+                        call.active = False
+                        call.answered = False
+                    return
             if clcc:
                 # Determine call state
                 stat = int(clcc.group(3))
-- 
2.43.0


From dd06f7cfb7ea7b4cc71220c5128778d09a221394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 56/95] fix: calls dialled by several threads at the same time
 were mixed up

The notification that a call has been set up was lost (and the call left unattended) if another thread called dial() meanwhile.
---
 gsmmodem/modem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1357b05..c842f92 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -146,6 +146,7 @@ class GsmModem(SerialComms):
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
         self._smsStatusReportEvents = {} # threading.Event for each sent SMS that is waiting for its status report, key is the message reference
+        self._dialLock = threading.RLock()
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
@@ -771,6 +772,10 @@ class GsmModem(SerialComms):
         :return: The outgoing call
         :rtype: gsmmodem.modem.Call
         """
+        with self._dialLock: # Only one call can be set up at a time
+            return self._dial(number, timeout, callStatusUpdateCallbackFunc)
+
+    def _dial(self, number, timeout, callStatusUpdateCallbackFunc):
         if self._waitForCallInitUpdate:
             # Wait for the "call originated" notification message
             self._dialEvent = threading.Event()
-- 
2.43.0


From 0a883475b804b5418d7bd1cd15b5f6618ba993cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 57/95] fix: a program that had waited for network coverage
 could not end before the timeout

---
 gsmmodem/modem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index c842f92..a352e55 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -653,6 +653,7 @@ class GsmModem(SerialComms):
             def _cancelBlock():                
                 block[0] = False                
             t = threading.Timer(timeout, _cancelBlock)
+            t.daemon = True # Do not keep the program running if coverage is found before the timeout
             t.start()
         ss = -1
         checkCreg = True
-- 
2.43.0


From 8f75d5c47843d498058546b2f9971f54b2ac6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 58/95] fix: registration status was ignored if the modem
 reports it with location information

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a352e55..a5d1ac2 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -659,7 +659,7 @@ class GsmModem(SerialComms):
         checkCreg = True
         while block[0]:
             if checkCreg:
-                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
+                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)(?:,.*)?$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
                 if cregResult:
                     status = int(cregResult.group(2))
                     if status in (1, 5):
-- 
2.43.0


From 75d42c21f7421dd088db69ca21b1c0a822b1bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 59/95] fix: the network operator was not recognized in a
 response without space (as it is in other responses)

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a5d1ac2..e03f3da 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -551,7 +551,7 @@ class GsmModem(SerialComms):
     @property
     def networkName(self):
         """ :return: the name of the GSM Network Operator to which the modem is connected """
-        copsMatch = lineMatching(r'^\+COPS: (\d),(\d),"(.+)",{0,1}\d*$', self.write('AT+COPS?')) # response format: +COPS: mode,format,"operator_name",x
+        copsMatch = lineMatching(r'^\+COPS:\s*(\d),(\d),"(.+)",{0,1}\d*$', self.write('AT+COPS?')) # response format: +COPS: mode,format,"operator_name",x
         if copsMatch:
             return copsMatch.group(3)
 
-- 
2.43.0


From ad1e77998a4ea1991cce124412f7297cdfce23c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 60/95] fix: the first supported command was lost if it is
 +CLAC and the list has no prefix

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e03f3da..d4a6930 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -564,7 +564,7 @@ class GsmModem(SerialComms):
             response = self.write('AT+CLAC')
             if len(response) == 2: # Single-line response, comma separated
                 commands = response[0]
-                if commands.startswith('+CLAC'):
+                if commands.startswith('+CLAC:'):
                     commands = commands[6:] # remove the +CLAC: prefix before splitting
                 return [cmd.strip() for cmd in commands.split(',')]
             elif len(response) > 2: # Multi-line response
-- 
2.43.0


From 4c2ae21735f9f0a89f329a98f9233aef3e43d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:22 +0000
Subject: [PATCH 61/95] fix: raw terminal ended when a character outside of
 Latin-1 was typed (send it as it was typed)

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 7146f75..2960901 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -168,7 +168,7 @@ class RawTerm(SerialComms):
                         sys.stdout.flush()
                 else:
                     #print('writing: ', c)
-                    self.serial.write(c)
+                    self.serial.write(c if isinstance(c, bytes) else c.encode('utf-8'))
                     if self.echo:
                         sys.stdout.write(c)
                         sys.stdout.flush()
-- 
2.43.0


From 327e754babbd6de2062434d0d3f149da8a08fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:11 +0000
Subject: [PATCH 62/95] fix: invisible and non-ASCII white space was inserted
 into the terminal's input line

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 2960901..04e3975 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -595,7 +595,7 @@ class GsmTerm(RawTerm):
             self._refreshInputPrompt(len(self.inputBuffer))
 
     def _isPrintable(self, char):
-        return 33 <= ord(char) <= 126 or char.isspace()  
+        return 32 <= ord(char) <= 126
 
     def _refreshInputPrompt(self, clearLen=0):
         termPrompt = self.SMS_PROMPT if self._typingSms else self.PROMPT        
-- 
2.43.0


From a19f00a9fbdf18d5e9cbe5f80a088f5ac6fe85e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 63/95] fix: rest of the input line stayed on the screen if
 completion made it shorter

---
 tools/gsmtermlib/terminal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 04e3975..0cbe09c 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -547,6 +547,7 @@ class GsmTerm(RawTerm):
     def _doCommandCompletion(self):
         """ Command-completion method """        
         prefix =  ''.join(self.inputBuffer).strip().upper()
+        clearLen = len(self.inputBuffer)
         matches = self.completion.keys(prefix)
         matchLen = len(matches)        
         if matchLen == 0 and prefix[-1] == '=':
@@ -562,7 +563,7 @@ class GsmTerm(RawTerm):
                     # Complete only possible command
                     self.inputBuffer = list(matches[0])
                     self.cursorPos = len(self.inputBuffer)
-                    self._refreshInputPrompt(len(self.inputBuffer))
+                    self._refreshInputPrompt(max(clearLen, len(self.inputBuffer)))
                 return
             else:
                 commonPrefix = self.completion.longestCommonPrefix(prefix)
-- 
2.43.0


From b11313dccded111b7bd679b6408bd5328c65b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 64/95] fix: keys were lost or misread in the terminal if
 several are read at once (key repeat, pasted text, long escape sequences)

---
 tools/gsmtermlib/terminal.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 0cbe09c..2c8af39 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -9,7 +9,7 @@ Note: The "Console" object was copied from pySerial's miniterm.py code
 """
 
 from __future__ import print_function
-import os, sys, threading, time, atexit
+import os, sys, re, codecs, threading, time, atexit
 import serial
 
 from gsmmodem.serial_comms import SerialComms
@@ -67,10 +67,13 @@ elif os.name == 'posix':
         DELETE = '{0}{1}{2}{3}'.format(chr(27), chr(91), chr(51), chr(126))
         HOME = '{0}{1}{2}'.format(chr(27), chr(79), chr(72))
         END = '{0}{1}{2}'.format(chr(27), chr(79), chr(70))
+        # A single key: escape sequence or character
+        KEY_REGEX = re.compile('\x1b(?:\\[[0-9;?]*[@-~]|O[@-~])|.', re.DOTALL)
         
         def __init__(self):
             self.fd = sys.stdin.fileno()
             self.pendingKeys = [] # keys that have been read, but not yet returned by getkey()
+            self.decoder = codecs.getincrementaldecoder('utf-8')('replace')
 
         def setup(self):
             self.old = termios.tcgetattr(self.fd)
@@ -87,17 +90,15 @@ elif os.name == 'posix':
         def getkey(self):
             if len(self.pendingKeys) > 0:
                 return self.pendingKeys.pop(0)
-            c = os.read(self.fd, 4)
+            c = os.read(self.fd, 1024)
             #print (len(c))
             #for a in c:
             #    print('rx:',ord(a))           
             if not isinstance(c, str): # Python 3
-                c = c.decode('utf-8', 'replace')
-            if len(c) > 1 and c[0] != chr(27):
-                # More than one key has been read (e.g. pasted text)
-                self.pendingKeys.extend(c[1:])
-                c = c[0]
-            return c
+                c = self.decoder.decode(c)
+            # More than one key may have been read (e.g. key repeat, pasted text)
+            self.pendingKeys.extend(self.KEY_REGEX.findall(c))
+            return self.pendingKeys.pop(0) if len(self.pendingKeys) > 0 else ''
 
         def cleanup(self):
             termios.tcsetattr(self.fd, termios.TCSAFLUSH, self.old)
-- 
2.43.0


From b755e7ad45e66691935f906b0cf29bab4e1a038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 65/95] fix: loading a file that is not a text file ended the
 terminal's input loop

---
 tools/gsmtermlib/terminal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 2c8af39..89f224c 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -440,13 +440,15 @@ class GsmTerm(RawTerm):
                 if len(load) == 2:                    
                     filename = load[1].strip()
                     try:
-                        f = open(filename, 'r')
+                        with open(filename, 'r') as f:
+                            atCommands = f.readlines()
                     except IOError:
                         sys.stdout.write('\n{0}\n'.format(self._color(self.COLOR_RED, 'File not found: "{0}"'.format(filename))))
                         self._refreshInputPrompt(len(self.inputBuffer))                        
+                    except UnicodeError:
+                        sys.stdout.write('\n{0}\n'.format(self._color(self.COLOR_RED, 'Not a text file: "{0}"'.format(filename))))
+                        self._refreshInputPrompt(len(self.inputBuffer))
                     else:
-                        atCommands = f.readlines()
-                        f.close()                    
                         sys.stdout.write('\n')
                         for atCommand in atCommands: 
                             atCommand = atCommand.strip()
-- 
2.43.0


From 65a9c04f6937a7456faa4cf14c1195a4a2d1e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:28 +0000
Subject: [PATCH 66/95] fix: terminal showed the echoed command instead of the
 modem's prompt when entering an SMS

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 89f224c..bd506dc 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -475,7 +475,7 @@ class GsmTerm(RawTerm):
                             self._handleModemNotification(response)
                             return
                         sys.stdout.write(self._color(self.COLOR_YELLOW, 'Type your SMS message, and press CTRL+Z to send it or press ESC to cancel.\n'))                        
-                        self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[0])
+                        self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[-1])
                     self._refreshInputPrompt()                        
                     return
                 self.serial.write(inputStr)
-- 
2.43.0


From bbc4f633b3b1760eb7dec60c00c6e2b5352709b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:17 +0000
Subject: [PATCH 67/95] fix: a notification received while entering an SMS
 replaced the terminal's prompt

---
 tools/gsmtermlib/terminal.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index bd506dc..9a140c4 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -237,8 +237,6 @@ class GsmTerm(RawTerm):
     def _handleModemNotification(self, lines):
         # Clear any input prompt
         self._removeInputPrompt()
-        if self._typingSms:
-            self.PROMPT = self._color(self.COLOR_CYAN, lines[0])
         if lines[-1] == 'ERROR':
             print(self._color(self.COLOR_RED, '\n'.join(lines)))
         else:
-- 
2.43.0


From 670f8111461a48f814e64c99f7f54af5bc075aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:08 +0000
Subject: [PATCH 68/95] fix: terminal completed commands in the text of an SMS

---
 tools/gsmtermlib/terminal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 9a140c4..420f8f8 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -547,6 +547,9 @@ class GsmTerm(RawTerm):
 
     def _doCommandCompletion(self):
         """ Command-completion method """        
+        if self._typingSms:
+            # The text of a message is not a command
+            return
         prefix =  ''.join(self.inputBuffer).strip().upper()
         clearLen = len(self.inputBuffer)
         matches = self.completion.keys(prefix)
-- 
2.43.0


From ef736651165929ee3fe2f7c1dcefdfb2fb9d33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:45 +0000
Subject: [PATCH 69/95] fix: identify-modem.py -d ended with an exception if
 the modem does not end its response to a command (AT+CPIN? on Wavecom modems)

---
 tools/identify-modem.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/tools/identify-modem.py b/tools/identify-modem.py
index b56bdf9..b1b8235 100755
--- a/tools/identify-modem.py
+++ b/tools/identify-modem.py
@@ -39,6 +39,13 @@ def parseArgsPy26():
         options.port = args[0]
         return options
 
+def query(modem, command):
+    """ Get the response to the command, or what was received of it if the modem does not end it (Wavecom: AT+CPIN?) """
+    try:
+        return modem.write(command, parseError=False)
+    except TimeoutException as e:
+        return e.data
+
 def main():
     args = parseArgsPy26() if sys.version_info[0] == 2 and sys.version_info[1] < 7 else parseArgs()
     print ('args:',args)
@@ -57,20 +64,20 @@ def main():
     if args.debug:
         # Print debug info
         print('\n== MODEM DEBUG INFORMATION ==\n')
-        print('ATI', modem.write('ATI', parseError=False))
-        print('AT+CGMI:', modem.write('AT+CGMI', parseError=False))
-        print('AT+CGMM:', modem.write('AT+CGMM', parseError=False))
-        print('AT+CGMR:', modem.write('AT+CGMR', parseError=False))
-        print('AT+CFUN=?:', modem.write('AT+CFUN=?', parseError=False))
-        print('AT+WIND=?:', modem.write('AT+WIND=?', parseError=False))
-        print('AT+WIND?:', modem.write('AT+WIND?', parseError=False))
-        print('AT+CPMS=?:', modem.write('AT+CPMS=?', parseError=False))
-        print('AT+CNMI=?:', modem.write('AT+CNMI=?', parseError=False))
-        print('AT+CVHU=?:', modem.write('AT+CVHU=?', parseError=False))
-        print('AT+CSMP?:', modem.write('AT+CSMP?', parseError=False))
-        print('AT+GCAP:', modem.write('AT+GCAP', parseError=False))
-        print('AT+CPIN?', modem.write('AT+CPIN?', parseError=False))
-        print('AT+CLAC:', modem.write('AT+CLAC', parseError=False))
+        print('ATI', query(modem, 'ATI'))
+        print('AT+CGMI:', query(modem, 'AT+CGMI'))
+        print('AT+CGMM:', query(modem, 'AT+CGMM'))
+        print('AT+CGMR:', query(modem, 'AT+CGMR'))
+        print('AT+CFUN=?:', query(modem, 'AT+CFUN=?'))
+        print('AT+WIND=?:', query(modem, 'AT+WIND=?'))
+        print('AT+WIND?:', query(modem, 'AT+WIND?'))
+        print('AT+CPMS=?:', query(modem, 'AT+CPMS=?'))
+        print('AT+CNMI=?:', query(modem, 'AT+CNMI=?'))
+        print('AT+CVHU=?:', query(modem, 'AT+CVHU=?'))
+        print('AT+CSMP?:', query(modem, 'AT+CSMP?'))
+        print('AT+GCAP:', query(modem, 'AT+GCAP'))
+        print('AT+CPIN?', query(modem, 'AT+CPIN?'))
+        print('AT+CLAC:', query(modem, 'AT+CLAC'))
         print()
     else:
         # Print basic info
-- 
2.43.0


From 29249299ac347aacaef0bf8866a41633a0ff28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 70/95] fix: a long message was sent with the reference of the
 previous one if that had been sent only partly

---
 gsmmodem/modem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index d4a6930..ba1cd6a 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -705,15 +705,13 @@ class GsmModem(SerialComms):
                 result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
             else:
                 pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
+                self._smsRef = (self._smsRef + 1) % 256 # Never use it for the next message as well (even if sending this one fails halfway)
                 for pdu in pdus:
                     self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
                     result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
             if result == None:
                 raise CommandError('Modem did not respond with +CMGS response')
             reference = int(result[6:].split(',')[0]) # the reference may be followed by a time stamp or acknowledgment PDU
-            self._smsRef = reference + 1
-            if self._smsRef > 255:
-                self._smsRef = 0
             sms = SentSms(destination, text, reference)
             # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
             self.sentSms[reference] = sms
-- 
2.43.0


From 9b07500a4a4f3b60beb5d78798eaf203caa75471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 71/95] fix: an incoming call could not be answered any more
 after the modem refused to hang it up

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ba1cd6a..9ffe456 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1492,8 +1492,8 @@ class IncomingCall(Call):
 
     def hangup(self):
         """ End the phone call. """
-        self.ringing = False
         super(IncomingCall, self).hangup()
+        self.ringing = False
 
 class Ussd(object):
     """ Unstructured Supplementary Service Data (USSD) message.
-- 
2.43.0


From bdfbd9af7c8bd1286d826a21f7e181f4ad8c9943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 72/95] fix: a call that ended at the moment it was answered
 was left in answered state

---
 gsmmodem/modem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 9ffe456..dbcd051 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1409,6 +1409,9 @@ class Call(object):
     @answered.setter
     def answered(self, answered):
         self._answered = answered
+        if answered and not self.active:
+            self._answered = False # The call was ended while it was being answered
+            return
         if self._callStatusUpdateCallbackFunc:
             self._callStatusUpdateCallbackFunc(self)
     
-- 
2.43.0


From 92122822f672d334a3a573d83410e547bd18b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:42 +0000
Subject: [PATCH 73/95] fix: a message was sent or read in the wrong mode if
 another thread switched between text and PDU mode at that moment

---
 gsmmodem/modem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index dbcd051..ffde0ab 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -582,11 +582,12 @@ class GsmModem(SerialComms):
     @smsTextMode.setter
     def smsTextMode(self, textMode):
         """ Set to True for the modem to use text mode for SMS, or False for it to use PDU mode """
-        if textMode != self._smsTextMode:
-            if self.alive:
-                self.write('AT+CMGF={0}'.format(1 if textMode else 0))
-            self._smsTextMode = textMode
-            self._compileSmsRegexes()
+        with self._txLock: # No message may be sent or read while only one side has changed its mode
+            if textMode != self._smsTextMode:
+                if self.alive:
+                    self.write('AT+CMGF={0}'.format(1 if textMode else 0))
+                self._smsTextMode = textMode
+                self._compileSmsRegexes()
     
     def _setSmsMemory(self, readDelete=None, write=None):
         """ Set the current SMS memory to use for read/delete/write operations """
@@ -1183,11 +1184,12 @@ class GsmModem(SerialComms):
         with self._txLock:
             self._setSmsMemory(readDelete=memory)
             msgData = self.write('AT+CMGR={0}'.format(index))
+            textMode = self._smsTextMode # of the response (it may be changed by another thread while the response is parsed)
         # Ignore notifications that were issued just before the response
         while len(msgData) > 1 and not msgData[0].startswith('+CMGR'):
             msgData.pop(0)
         # Parse meta information
-        if self._smsTextMode:
+        if textMode:
             cmgrMatch = self.CMGR_SM_DELIVER_REGEX_TEXT.match(msgData[0])
             if cmgrMatch:
                 msgStatus, number, msgTime = cmgrMatch.groups()
-- 
2.43.0


From 33370a32fa170858c8f306aadbc5bf29d2a2c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 74/95] fix: an object that was connected before used call,
 DTMF and SMS settings (and calls) of its previous device after connecting to
 another one

---
 gsmmodem/modem.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ffde0ab..61c3f09 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -174,6 +174,7 @@ class GsmModem(SerialComms):
         :raise IncorrectPinError: if the specified PIN is incorrect
         """
         self.log.info('Connecting to modem on port %s at %dbps', self.port, self.baudrate)        
+        self._resetDeviceState()
         super(GsmModem, self).connect()
         # Send some initialization commands to the modem
         try:        
@@ -374,6 +375,21 @@ class GsmModem(SerialComms):
         # Call control setup
         self.write('AT+CVHU=0', parseError=False) # Enable call hang-up with ATH command (ignore if command not supported)
     
+    def _resetDeviceState(self):
+        """ Forgets everything that depends on the device (and its calls) of a previous connection """
+        self.activeCalls.clear()
+        self._callStatusUpdates = []
+        self._waitForAtdResponse = True
+        self._waitForCallInitUpdate = True
+        self._mustPollCallStatus = False
+        self._dtmfCommandBase = Call.STANDARD_DTMF_COMMAND_BASE
+        self._dtmfSupport = False
+        self._callingLineIdentification = False
+        self._extendedIncomingCallIndication = False
+        self._smsReadSupported = True
+        self._smsMemReadDelete = None
+        self._smsMemWrite = None
+
     def _unlockSim(self, pin):
         """ Unlocks the SIM card using the specified PIN (if necessary, else does nothing) """
         # Unlock the SIM card if needed
-- 
2.43.0


From 713b7f70a4e8242c36b7259fd9510a20770ed247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 75/95] fix: connecting again stored the SMSC number of the
 previous SIM card or device in the current one

---
 gsmmodem/modem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 61c3f09..13356df 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -159,6 +159,7 @@ class GsmModem(SerialComms):
         self._dtmfSupport = False # Whether or not this modem can send DTMF tones in calls
         self._smsTextMode = False # Storage variable for the smsTextMode property
         self._smscNumber = None # Default SMSC number
+        self._smscRequested = None # Default SMSC number, if it has been set by the user
         self._smsRef = 0 # Sent SMS reference counter
         self._smsMemReadDelete = None # Preferred message storage memory for reads/deletes (<mem1> parameter used for +CPMS)
         self._smsMemWrite = None # Preferred message storage memory for writes (<mem2> parameter used for +CPMS)
@@ -314,7 +315,8 @@ class GsmModem(SerialComms):
         self.write('AT+CSMP=49,167,0,0', parseError=False) # Enable delivery reports
         # ...check SMSC again to ensure it did not change
         if currentSmscNumber != None and self.smsc != currentSmscNumber:
-            self.smsc = currentSmscNumber
+            self.write('AT+CSCA="{0}"'.format(currentSmscNumber))
+            self._smscNumber = currentSmscNumber
 
         # Set message storage, but first check what the modem supports - example response: +CPMS: (("SM","BM","SR"),("SM"))
         try:
@@ -389,6 +391,7 @@ class GsmModem(SerialComms):
         self._smsReadSupported = True
         self._smsMemReadDelete = None
         self._smsMemWrite = None
+        self._smscNumber = self._smscRequested # (a number that was read from the previous device or SIM card is none of this one's business)
 
     def _unlockSim(self, pin):
         """ Unlocks the SIM card using the specified PIN (if necessary, else does nothing) """
@@ -647,6 +650,7 @@ class GsmModem(SerialComms):
             if self.alive:
                 self.write('AT+CSCA="{0}"'.format(smscNumber))
             self._smscNumber = smscNumber
+        self._smscRequested = smscNumber
 
     def waitForNetworkCoverage(self, timeout=None):
         """ Block until the modem has GSM network coverage.
-- 
2.43.0


From 5e47bb91491a77d6c113166a70fb4b0cbde9abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 76/95] fix: a notification that was interrupted by the loss of
 the device was handled after connecting again

---
 gsmmodem/serial_comms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 1c2df92..4a1acf5 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -70,6 +70,7 @@ class SerialComms(object):
         if PYTHON_VERSION >= 3 and isinstance(self.serial, io.RawIOBase):
             # pyserial transfers bytes (not str) in Python 3
             self.serial = _TextSerial(self.serial)
+        self._notification = [] # (the rest of a notification that was interrupted by the end of the previous connection)
         # Start read thread
         self.alive = True 
         self.rxThread = threading.Thread(target=self._readLoop)
-- 
2.43.0


From 09afbd5fe9551b8a8ac5dbec1e6eed1e4449e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 77/95] fix: a USSD session that had been cancelled still
 counted as active: a reply to it was sent as a new request

---
 gsmmodem/modem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 13356df..ac09fd5 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1552,3 +1552,4 @@ class Ussd(object):
         """
         if self.sessionActive:
             self._gsmModem.write('AT+CUSD=2')
+            self.sessionActive = False
-- 
2.43.0


From 0d0c03b6aad6ab45e5ec1daa50fa1ec088768c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:56 +0000
Subject: [PATCH 78/95] fix: USSD requests by several threads at once got lost
 or each other's responses

---
 gsmmodem/modem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ac09fd5..088ee6d 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -143,6 +143,7 @@ class GsmModem(SerialComms):
         self.activeCalls = {}
         # Dict containing sent SMS messages (for auto-tracking their delivery status)
         self.sentSms = weakref.WeakValueDictionary()
+        self._ussdLock = threading.RLock()
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
         self._smsStatusReportEvents = {} # threading.Event for each sent SMS that is waiting for its status report, key is the message reference
@@ -760,6 +761,10 @@ class GsmModem(SerialComms):
         :return: The USSD response message/session (as a Ussd object)
         :rtype: gsmmodem.modem.Ussd
         """
+        with self._ussdLock: # Only one request can be answered at a time
+            return self._sendUssd(ussdString, responseTimeout)
+
+    def _sendUssd(self, ussdString, responseTimeout):
         self._ussdSessionEvent = threading.Event()
         try:
             cusdResponse = self.write('AT+CUSD=1,"{0}",15'.format(ussdString), timeout=responseTimeout) # Should respond with "OK"
-- 
2.43.0


From 8c3a9b75aa244436e718ecb62533249cac78e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:50 +0000
Subject: [PATCH 79/95] fix: the default SMSC number known to an object
 differed from the modem's after two threads had set (or read) it at once

---
 gsmmodem/modem.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 088ee6d..a150832 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -635,23 +635,29 @@ class GsmModem(SerialComms):
     def smsc(self):
         """ :return: The default SMSC number stored on the SIM card """
         if self._smscNumber == None:
-            try:
-                readSmsc = self.write('AT+CSCA?')
-            except SmscNumberUnknownError:
-                pass # Some modems return a CMS 330 error if the value isn't set
-            else:
-                cscaMatch = lineMatching(r'\+CSCA:\s*"([^,]+)",(\d+)$', readSmsc)
-                if cscaMatch:
-                    self._smscNumber = cscaMatch.group(1)
+            with self._txLock: # The number may not be changed on one side only meanwhile
+                self._readSmsc()
         return self._smscNumber
     @smsc.setter
     def smsc(self, smscNumber):
         """ Set the default SMSC number to use when sending SMS messages """
-        if smscNumber != self._smscNumber:
-            if self.alive:
-                self.write('AT+CSCA="{0}"'.format(smscNumber))
-            self._smscNumber = smscNumber
-        self._smscRequested = smscNumber
+        with self._txLock:
+            if smscNumber != self._smscNumber:
+                if self.alive:
+                    self.write('AT+CSCA="{0}"'.format(smscNumber))
+                self._smscNumber = smscNumber
+            self._smscRequested = smscNumber
+
+    def _readSmsc(self):
+        """ Reads the default SMSC number from the modem """
+        try:
+            readSmsc = self.write('AT+CSCA?')
+        except SmscNumberUnknownError:
+            pass # Some modems return a CMS 330 error if the value isn't set
+        else:
+            cscaMatch = lineMatching(r'\+CSCA:\s*"([^,]+)",(\d+)$', readSmsc)
+            if cscaMatch:
+                self._smscNumber = cscaMatch.group(1)
 
     def waitForNetworkCoverage(self, timeout=None):
         """ Block until the modem has GSM network coverage.
-- 
2.43.0


From 82ea50917a895ce0fcf0b4ebe82cef25a54fdbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:03 +0000
Subject: [PATCH 80/95] fix: a ring was lost, or its call type, when the
 extended indication could not be switched on again

---
 gsmmodem/modem.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a150832..34fbfe0 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1047,21 +1047,19 @@ class GsmModem(SerialComms):
     
     def _handleIncomingCall(self, ringLine, lines):
         self.log.debug('Handling incoming call')
-        if self._extendedIncomingCallIndication:
-            try:
-                callType = ringLine.split(' ', 1)[1]
-            except IndexError:
+        try:
+            callType = ringLine.split(' ', 1)[1]
+        except IndexError:
+            callType = None
+            if self._extendedIncomingCallIndication:
                 # Some external 3G scripts modify incoming call indication settings (issue #18)
                 self.log.debug('Extended incoming call indication format changed externally; re-enabling...')
-                callType = None
                 try:
                     # Re-enable extended format of incoming indication (optional)
                     self.write('AT+CRC=1') 
-                except CommandError:
+                except (CommandError, TimeoutException):
                     self.log.warn('Extended incoming call indication format changed externally; unable to re-enable')
                     self._extendedIncomingCallIndication = False
-        else:
-            callType = None
         if self._callingLineIdentification and len(lines) > 0 and lines[0].startswith('+CLIP'):
             clipLine = lines.pop(0)
             clipMatch = self.CLIP_REGEX.match(clipLine)
-- 
2.43.0


From 7e0ae4132b9cf63341934c5a5a59f46fc451de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:52 +0000
Subject: [PATCH 81/95] fix: a message or report was not handed over if the
 modem refused to delete it

---
 gsmmodem/modem.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 34fbfe0..2c0a187 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1171,7 +1171,10 @@ class GsmModem(SerialComms):
             msgIndex = cmtiMatch.group(2)
             with self._txLock: # Make sure the message is deleted from the memory it was read from
                 sms = self.readStoredSms(msgIndex, msgMemory)
-                self.deleteStoredSms(msgIndex)
+                try:
+                    self.deleteStoredSms(msgIndex)
+                except (CommandError, TimeoutException):
+                    self.log.warning('Unable to delete message %s from memory %s', msgIndex, msgMemory)
             self.smsReceivedCallback(sms)
     
     def _handleSmsStatusReport(self, notificationLine):
@@ -1183,7 +1186,10 @@ class GsmModem(SerialComms):
             msgIndex = cdsiMatch.group(2)
             with self._txLock: # Make sure the report is deleted from the memory it was read from
                 report = self.readStoredSms(msgIndex, msgMemory)
-                self.deleteStoredSms(msgIndex)
+                try:
+                    self.deleteStoredSms(msgIndex)
+                except (CommandError, TimeoutException):
+                    self.log.warning('Unable to delete message %s from memory %s', msgIndex, msgMemory)
             # Update sent SMS status if possible            
             sms = self.sentSms.get(report.reference)
             if sms != None:
-- 
2.43.0


From e2f6e3a28231a298d0670b5389f23f6f3554d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 82/95] fix: messages deleted by listStoredSms() were lost if
 the modem refused to delete another one

---
 gsmmodem/modem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 2c0a187..04d5785 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -975,7 +975,11 @@ class GsmModem(SerialComms):
                 self.deleteMultipleStoredSms()
             else:
                 for msgIndex in delMessages:
-                    self.deleteStoredSms(msgIndex)
+                    try:
+                        self.deleteStoredSms(msgIndex)
+                    except (CommandError, TimeoutException):
+                        # The messages deleted before are only available in the returned list
+                        self.log.warning('Unable to delete message %d', msgIndex)
         return messages
 
     def _handleModemNotification(self, lines):
-- 
2.43.0


From 4a982ec1a0b4d84a3bc56b8004a1584c1349af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 83/95] fix: the text of a cancelled SMS was shown as the next
 command line

---
 tools/gsmtermlib/terminal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 420f8f8..85fc8a3 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -305,10 +305,11 @@ class GsmTerm(RawTerm):
     def _handleEsc(self):
         """ Handler for CTRL+Z keypresses """
         if self._typingSms:
-            self.serial.write(self.ESC_CHARACTER)
             self._typingSms = False
             self.inputBuffer = []
             self.cursorPos = 0
+            # The input prompt is refreshed when the modem's response is received
+            self.serial.write(self.ESC_CHARACTER)
 
     def _exit(self):
         """ Shuts down the terminal (and app) """
-- 
2.43.0


From 77841635a4db7240646395a13f17e9bb68961e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:53 +0000
Subject: [PATCH 84/95] fix: messages were read from and deleted in the wrong
 memory after the modem had not answered a memory switch

---
 gsmmodem/modem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 04d5785..eb4f86e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -619,7 +619,11 @@ class GsmModem(SerialComms):
             self._smsMemReadDelete = readDel
             self._smsMemWrite = write
         elif readDelete != None and readDelete != self._smsMemReadDelete:
-            self.write('AT+CPMS="{0}"'.format(readDelete))
+            try:
+                self.write('AT+CPMS="{0}"'.format(readDelete))
+            except TimeoutException:
+                self._smsMemReadDelete = None # It is not known whether the memory has been switched
+                raise
             self._smsMemReadDelete = readDelete
 
     def _compileSmsRegexes(self):
-- 
2.43.0


From 2343fe5b600c42a6dda9949c340cddc1eb403ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:43 +0000
Subject: [PATCH 85/95] fix: listStoredSms(delete=True) lost all messages if
 the modem did not answer their deletion

---
 gsmmodem/modem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index eb4f86e..d373b8a 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -976,7 +976,11 @@ class GsmModem(SerialComms):
         if delete:
             if status == Sms.STATUS_ALL and len(messages) == numListed:
                 # Delete all messages
-                self.deleteMultipleStoredSms()
+                try:
+                    self.deleteMultipleStoredSms()
+                except TimeoutException:
+                    # The messages may have been deleted; they are only available in the returned list
+                    self.log.warning('No response to the deletion of all messages')
             else:
                 for msgIndex in delMessages:
                     try:
-- 
2.43.0


From 542f84278afad0346c12d7f16d1e2eb6e9be4850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 86/95] fix: the default SMSC number known to an object
 differed from the modem's after the modem had not answered the command that
 sets it

---
 gsmmodem/modem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index d373b8a..ef7b805 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -648,7 +648,11 @@ class GsmModem(SerialComms):
         with self._txLock:
             if smscNumber != self._smscNumber:
                 if self.alive:
-                    self.write('AT+CSCA="{0}"'.format(smscNumber))
+                    try:
+                        self.write('AT+CSCA="{0}"'.format(smscNumber))
+                    except TimeoutException:
+                        self._smscNumber = None # It is not known whether the number has been changed; read it when it is needed
+                        raise
                 self._smscNumber = smscNumber
             self._smscRequested = smscNumber
 
-- 
2.43.0


From b5fcd7558b9f9a4f2bc0b837c9d81427fa144aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 87/95] fix: the SMS mode could not be set again after the
 modem had not answered a mode switch

---
 gsmmodem/modem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ef7b805..076af2e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -159,6 +159,7 @@ class GsmModem(SerialComms):
         self._dtmfCommandBase = Call.STANDARD_DTMF_COMMAND_BASE # Base command used by this modem for sending DTMF tones
         self._dtmfSupport = False # Whether or not this modem can send DTMF tones in calls
         self._smsTextMode = False # Storage variable for the smsTextMode property
+        self._smsTextModeUncertain = False # Whether the modem did not answer the last command that sets the mode
         self._smscNumber = None # Default SMSC number
         self._smscRequested = None # Default SMSC number, if it has been set by the user
         self._smsRef = 0 # Sent SMS reference counter
@@ -301,6 +302,7 @@ class GsmModem(SerialComms):
                 
         # SMS setup
         self.write('AT+CMGF={0}'.format(1 if self._smsTextMode else 0)) # Switch to text or PDU mode for SMS messages
+        self._smsTextModeUncertain = False
         self._compileSmsRegexes()
         if self._smscNumber != None:
             self.write('AT+CSCA="{0}"'.format(self._smscNumber)) # Set default SMSC number
@@ -603,9 +605,14 @@ class GsmModem(SerialComms):
     def smsTextMode(self, textMode):
         """ Set to True for the modem to use text mode for SMS, or False for it to use PDU mode """
         with self._txLock: # No message may be sent or read while only one side has changed its mode
-            if textMode != self._smsTextMode:
+            if textMode != self._smsTextMode or self._smsTextModeUncertain:
                 if self.alive:
-                    self.write('AT+CMGF={0}'.format(1 if textMode else 0))
+                    try:
+                        self.write('AT+CMGF={0}'.format(1 if textMode else 0))
+                    except TimeoutException:
+                        self._smsTextModeUncertain = True # It is not known whether the mode has been switched
+                        raise
+                self._smsTextModeUncertain = False
                 self._smsTextMode = textMode
                 self._compileSmsRegexes()
     
-- 
2.43.0


From 1990b533256db7ca7d89361706ab325043f29365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:14 +0000
Subject: [PATCH 88/95] fix: the next command became the text of an SMS if the
 modem prompted for it too late

---
 gsmmodem/modem.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 076af2e..d6e919b 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -744,13 +744,13 @@ class GsmModem(SerialComms):
         """
         with self._txLock: # No other command may be written between a +CMGS command and its message body
             if self._smsTextMode:
-                self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
+                self._writeSmsCommand('AT+CMGS="{0}"'.format(destination))
                 result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
             else:
                 pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
                 self._smsRef = (self._smsRef + 1) % 256 # Never use it for the next message as well (even if sending this one fails halfway)
                 for pdu in pdus:
-                    self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
+                    self._writeSmsCommand('AT+CMGS={0}'.format(pdu.tpduLength))
                     result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
             if result == None:
                 raise CommandError('Modem did not respond with +CMGS response')
@@ -770,6 +770,21 @@ class GsmModem(SerialComms):
                 raise TimeoutException()
         return sms
 
+    def _writeSmsCommand(self, command):
+        """ Writes the specified +CMGS command, and waits until the modem prompts for the message body """
+        try:
+            self.write(command, timeout=3, expectedResponseTermSeq='> ')
+        except TimeoutException:
+            self._cancelSmsEntry()
+            raise
+
+    def _cancelSmsEntry(self):
+        """ Ensures that a modem that prompts for a message body too late does not take the next command for it """
+        try:
+            self.write('', timeout=1, parseError=False, writeTerm=chr(27)) # ESC
+        except TimeoutException:
+            pass # Nothing to cancel
+
     def sendUssd(self, ussdString, responseTimeout=15):
         """ Starts a USSD session by dialing the the specified USSD string, or \
         sends the specified string in the existing USSD session (if any)
-- 
2.43.0


From 8fcad1e64f58268cfd1ae1fab422dc68d3b6f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:50 +0000
Subject: [PATCH 89/95] fix: a call was taken for ended, or its end was missed,
 if the modem refused or did not answer one status poll

---
 gsmmodem/modem.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index d6e919b..a640104 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1411,9 +1411,12 @@ class GsmModem(SerialComms):
                     if match and int(match.group(2)) == 0 and (callId is None or int(match.group(1)) == callId): # Outgoing call
                         if callId is not None or match.group(3) in '23' or type(self.activeCalls.get(int(match.group(1)))) != Call:
                             clcc = match
-            except TimeoutException:
-                # Can happend if the call was ended during our time.sleep() call
-                pass
+            except (CommandError, TimeoutException) as e:
+                # This does not tell anything about the call; ask again
+                self.log.debug('Unable to poll call status: %s', e)
+                polled = False
+            else:
+                polled = True
             if polledCall:
                 call = polledCall[0]
                 if call is None:
@@ -1424,7 +1427,9 @@ class GsmModem(SerialComms):
                         call.active = False
                         call.answered = False
                     return
-            if clcc:
+            if not polled:
+                continue
+            elif clcc:
                 # Determine call state
                 stat = int(clcc.group(3))
                 if expectedState == 0: # waiting for call initiated
-- 
2.43.0


From 44c4b577b0d87d98dfc7deb7b73943d5c2bffe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 90/95] fix: formatting the time of a message with its time
 zone name raised NotImplementedError

---
 gsmmodem/pdu.py  | 4 ++++
 gsmmodem/util.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 1dd3d1f..d38fafc 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -76,6 +76,10 @@ class SmsPduTzInfo(tzinfo):
     def dst(self, dt):
         """ We do not have enough info in the SMS PDU to implement daylight savings time """
         return timedelta(0)
+    
+    def tzname(self, dt):
+        minutes = (self._offset.days * 86400 + self._offset.seconds) // 60
+        return 'UTC{0}{1:02d}:{2:02d}'.format('-' if minutes < 0 else '+', abs(minutes) // 60, abs(minutes) % 60)
 
 
 class InformationElement(object):
diff --git a/gsmmodem/util.py b/gsmmodem/util.py
index 0afdb73..a4a0249 100644
--- a/gsmmodem/util.py
+++ b/gsmmodem/util.py
@@ -24,6 +24,10 @@ class SimpleOffsetTzInfo(tzinfo):
     def dst(self, dt):
         return timedelta(0)
     
+    def tzname(self, dt):
+        minutes = int(round(self.offsetInHours * 60))
+        return 'UTC{0}{1:02d}:{2:02d}'.format('-' if minutes < 0 else '+', abs(minutes) // 60, abs(minutes) % 60)
+    
     def __repr__(self):
         return 'gsmmodem.util.SimpleOffsetTzInfo({0})'.format(self.offsetInHours)
 
-- 
2.43.0


From b9709942cc6570d213389d9208169fc1a58b4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:34 +0000
Subject: [PATCH 91/95] fix: closing the connection while a call was being
 polled made the polling thread fail

---
 gsmmodem/modem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a640104..a4d4ee2 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1415,6 +1415,10 @@ class GsmModem(SerialComms):
                 # This does not tell anything about the call; ask again
                 self.log.debug('Unable to poll call status: %s', e)
                 polled = False
+            except Exception:
+                if not self.alive:
+                    return # The connection has been closed
+                raise
             else:
                 polled = True
             if polledCall:
-- 
2.43.0


From c747d00011bdedabdf812f67f50cf4995c6cd0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:23 +0000
Subject: [PATCH 92/95] fix: connecting again without closing first (e.g. with
 the PIN after PinRequiredError) left two threads reading from the port

---
 gsmmodem/serial_comms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 4a1acf5..eabcfda 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -66,6 +66,8 @@ class SerialComms(object):
         
     def connect(self):
         """ Connects to the device and starts the read thread """                
+        if self.alive:
+            self.close() # Still connected (e.g. because a PIN was required): there must be one read thread only
         self.serial = serial.Serial(port=self.port, baudrate=self.baudrate, timeout=self.timeout)
         if PYTHON_VERSION >= 3 and isinstance(self.serial, io.RawIOBase):
             # pyserial transfers bytes (not str) in Python 3
-- 
2.43.0


From d16ac7f0b4dd58d7f47fb78081ee3eda18f34b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 93/95] fix: on modems without call status updates an incoming
 call stayed active after the caller had hung up

---
 gsmmodem/modem.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a4d4ee2..f340da1 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -295,6 +295,7 @@ class GsmModem(SerialComms):
             self.log.info('Unknown/generic modem type - will use polling for call state updates')
             self._mustPollCallStatus = True
             self._pollCallStatusRegex = re.compile('^\+CLCC:\s*(\d+),(\d),(\d),(\d),([^,])(?:,"([^"]*)",(\d+).*)?$') # The number (and name) of the remote party are optional
+            self._callStatusUpdates = ((re.compile(r'^NO CARRIER$'), self._handleNoCarrier),) # (outgoing calls are polled, incoming ones are not)
             self._waitForAtdResponse = True # Most modems return OK immediately after issuing ATD
 
         # General meta-information setup
@@ -1187,6 +1188,21 @@ class GsmModem(SerialComms):
             self._removeCall(call)
             call.answered = False # (runs the call's status update callback)
 
+    def _handleNoCarrier(self, regexMatch):
+        """ Handler for the end of some call, on modems without call status updates: see if it was an incoming one """
+        incomingCalls = [call for call in list(dictValuesIter(self.activeCalls)) if isinstance(call, IncomingCall)]
+        if len(incomingCalls) > 0:
+            try:
+                callMatches = [self._pollCallStatusRegex.match(line) for line in self.write('AT+CLCC')]
+            except (CommandError, TimeoutException) as e:
+                self.log.debug('Unable to check for incoming calls: %s', e)
+                return
+            if not any(match and match.group(2) == '1' for match in callMatches):
+                # No incoming calls are left
+                for call in incomingCalls:
+                    if self.activeCalls.get(call.id) is call:
+                        self._handleCallEnded(None, callId=call.id)
+
     def _removeCall(self, call):
         """ Removes the specified call from the active calls (if it is still present) """
         if self.activeCalls.get(call.id) is call:
-- 
2.43.0


From cdb1e749c95156a587f79f30fc56eb38df72ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:34 +0000
Subject: [PATCH 94/95] fix: an outgoing call that was answered, or ended,
 right after it had been set up was never reported as such

---
 gsmmodem/modem.py | 59 ++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index f340da1..76a7a3e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -149,6 +149,8 @@ class GsmModem(SerialComms):
         self._smsStatusReportEvents = {} # threading.Event for each sent SMS that is waiting for its status report, key is the message reference
         self._dialLock = threading.RLock()
         self._dialEvent = None # threading.Event
+        self._dialEventLock = threading.Lock()
+        self._dialRequest = None # (number, callStatusUpdateCallbackFunc) of the call being set up
         self._dialResponse = None # gsmmodem.modem.Call
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
         self._waitForCallInitUpdate = True # Flag that controls if we should wait for a ATD "call initiated" message
@@ -840,11 +842,14 @@ class GsmModem(SerialComms):
     def _dial(self, number, timeout, callStatusUpdateCallbackFunc):
         if self._waitForCallInitUpdate:
             # Wait for the "call originated" notification message
+            self._dialRequest = (number, callStatusUpdateCallbackFunc)
             self._dialEvent = threading.Event()
             try:
                 self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
             except Exception:
-                self._dialEvent = None # Cancel the thread sync lock
+                call = self._endDialing() # Cancel the thread sync lock
+                if call:
+                    self._removeCall(call)
                 raise
         else:
             # Don't wait for a call init update - base the call ID on the active calls
@@ -861,19 +866,23 @@ class GsmModem(SerialComms):
             polledCall = [] # receives the call once it has been created
             threading.Thread(target=self._pollCallStatus, kwargs={'expectedState': 0, 'timeout': timeout, 'polledCall': polledCall}).start()
 
-        if self._dialEvent.wait(timeout):
-            self._dialEvent = None
-            callId, callType = self._dialResponse
-            call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-            self.activeCalls[callId] = call
-            if self._mustPollCallStatus:
-                polledCall.append(call)
-            return call
-        else: # Call establishing timed out
-            self._dialEvent = None
-            if self._mustPollCallStatus:
-                polledCall.append(None)
+        self._dialEvent.wait(timeout)
+        call = self._endDialing()
+        if self._mustPollCallStatus:
+            polledCall.append(call)
+        if not call: # Call establishing timed out
             raise TimeoutException()
+        return call
+
+    def _endDialing(self):
+        """ Stops waiting for the "call originated" notification message
+        
+        :return: the call that was set up, or None if there is none (yet)
+        """
+        with self._dialEventLock:
+            callInitiated = self._dialEvent.is_set()
+            self._dialEvent = None
+            return self._dialResponse if callInitiated else None
 
     def processStoredSms(self, unreadOnly=False):
         """ Process all SMS messages currently stored on the device/SIM card.
@@ -1135,18 +1144,20 @@ class GsmModem(SerialComms):
     
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
-        dialEvent = self._dialEvent
-        if dialEvent:
-            if regexMatch:
-                groups = regexMatch.groups()
-                # Set self._dialReponse to (callId, callType)
-                if len(groups) >= 2:
-                    self._dialResponse = (int(groups[0]) , int(groups[1]))
-                else:
-                    self._dialResponse = (int(groups[0]), 1) # assume call type: VOICE
+        if regexMatch:
+            groups = regexMatch.groups()
+            callId = int(groups[0])
+            if len(groups) >= 2:
+                callType = int(groups[1])
             else:
-                self._dialResponse = callId, callType
-            dialEvent.set()
+                callType = 1 # assume call type: VOICE
+        with self._dialEventLock:
+            if self._dialEvent and not self._dialEvent.is_set():
+                # Add the call now: it may be answered, or end, before dial() has been able to do so
+                number, callStatusUpdateCallbackFunc = self._dialRequest
+                self._dialResponse = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
+                self.activeCalls[callId] = self._dialResponse
+                self._dialEvent.set()
                 
     def _handleCallAnswered(self, regexMatch, callId=None):
         """ Handler for "outgoing call answered" event notification line """
-- 
2.43.0


From 7dcde85f449cc94a549dd382a451ed903d7862b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:53 +0000
Subject: [PATCH 95/95] fix: errors that were reported by the modem could not
 be copied or unpickled

---
 gsmmodem/exceptions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gsmmodem/exceptions.py b/gsmmodem/exceptions.py
index 6882524..9f2b4cd 100644
--- a/gsmmodem/exceptions.py
+++ b/gsmmodem/exceptions.py
@@ -68,6 +68,10 @@ class CmeError(CommandError):
     def __init__(self, command, code):
         super(CmeError, self).__init__(command, 'CME', code)
 
+    def __reduce__(self):
+        # (exceptions are copied, and unpickled, by passing their message only)
+        return type(self), (self.command, self.code), self.__dict__
+
 
 class SecurityException(CmeError):
     """ Security-related CME error """
@@ -120,6 +124,10 @@ class CmsError(CommandError):
     def __init__(self, command, code):
         super(CmsError, self).__init__(command, 'CMS', code)
 
+    def __reduce__(self):
+        # (exceptions are copied, and unpickled, by passing their message only)
+        return type(self), (self.command, self.code), self.__dict__
+
 
 class SmscNumberUnknownError(CmsError):
     """ Raised if the SMSC (service centre) address is missing when trying to send an SMS message """
-- 
2.43.0

