#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook or None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
PDU='gsmmodem/pdu.py'; MOD='gsmmodem/modem.py'; SER='gsmmodem/serial_comms.py'; UTIL='gsmmodem/util.py'
TRIE='tools/gsmtermlib/trie.py'; TERM='tools/gsmtermlib/terminal.py'

p("C01","Outgoing SMS text arrives complete and unchanged",
  "For any message text, the sequence of PDUs built for it, decoded the way a receiving phone decodes them (3GPP 23.040/23.038), yields exactly that text. GSM-7 is used whenever every character is in the GSM-7 alphabet (basic or extension table) and UCS2 otherwise. Long texts become parts numbered 1..n of n with one shared reference, each part fitting 140 octets of user data, never splitting an escape pair or surrogate pair, and a text that fits one PDU is sent as one; a longer one takes no more parts than it needs.",
  ["inputs"],"any text made of characters of the GSM-7 basic and extension tables and/or any Unicode text, of any length up to 255 parts, with any reference 0..255, flash on/off",
  "Tests use a handful of fixed texts; defects sit at length boundaries (160/153/70/67 multiples), extension characters on a part boundary, and particular characters.",
  [PDU],[("text to PDUs, concatenation",PDU+":encodeSmsSubmitPdu"),("GSM-7 alphabet",PDU+":encodeGsm7"),("septet packing",PDU+":packSeptets"),("UCS2",PDU+":encodeUcs2")],
  ["PDU octets returned by the public PDU encoder","PDU hex string written to the serial port when a message is sent"])
p("C02","Outgoing SMS PDU carries exactly the requested header fields",
  "Every PDU built for sending carries the requested destination number and number type, service centre (or none), message reference, validity period, status-report, reject-duplicates and flash-class flags, and correct length fields. The announced TPDU length equals the number of octets after the service-centre field, and the hex form is exactly those octets. No combination of options changes a field that was not asked for.",
  ["inputs"],"any combination of destination (international, national, alphanumeric), service centre, reference, validity (relative, absolute, none), status-report, reject-duplicate and flash flags, for short and multi-part texts",
  "Options are independent bit fields and lengths; tests cover a few combinations, and a modem silently accepts a PDU with a wrong bit.",
  [PDU],[("SMS-SUBMIT header",PDU+":encodeSmsSubmitPdu"),("addresses",PDU+":_encodeAddressField"),("validity",PDU+":_encodeRelativeValidityPeriod"),("length and hex form",PDU+":Pdu")],
  ["PDU octets and TPDU length returned by the public PDU encoder, parsed by an independent reference decoder"])
p("C03","Incoming SMS PDUs are decoded exactly",
  "For every well-formed SMS-DELIVER, SMS-STATUS-REPORT or SMS-SUBMIT PDU, decoding returns the type, service centre, number, time(s), text, references and user-data-header elements that were encoded in it, whatever alphabet, header size or septet alignment is used. The whole text is returned: no character is added, dropped or altered, including at the end of the message and after a user data header.",
  ["inputs"],"any valid PDU of the three types: any address form and length, alphabet, message length 0..160 septets or 0..140 octets, user data header of any size, timestamp and zone, hex or octet input",
  "Septet alignment, header fill bits, empty fields and the zero-valued character only misbehave for particular lengths and contents that sample PDUs do not hit.",
  [PDU],[("PDU parser",PDU+":decodeSmsPdu"),("user data",PDU+":_decodeUserData"),("addresses",PDU+":_decodeAddressField"),("septet unpacking",PDU+":unpackSeptets")],
  ["dictionary returned by the public PDU decoder","text, number, time of messages handed to callbacks and returned by reads"])
p("C04","Malformed PDUs are rejected cleanly, never crash or hang the decoder",
  "Given any input string or octet sequence, decoding a PDU terminates and either returns a decoded message whose fields have their documented types, or raises the documented encoding error. No other exception escapes, so one corrupt stored message can never take down its reader. In particular every truncation of a valid PDU's headers is rejected with that error.",
  ["inputs"],"any octets or string: random, truncated, bit-flipped, spliced and non-hexadecimal PDUs",
  "Tests feed one malformed string; the space of truncation points and corrupt fields is far larger.",
  [PDU,MOD],[("PDU parser",PDU+":decodeSmsPdu"),("list reader that relies on the error type",MOD+":GsmModem.listStoredSms")],
  ["exceptions and values leaving the public PDU decoder"])
p("C05","Times, zones and validity periods keep their exact meaning",
  "A message timestamp denotes the instant and UTC offset (any quarter-hour offset, positive or negative) that the network sent, in PDU mode and in text mode alike, also after it has been formatted (with its zone), copied or pickled, and an absolute validity given as an aware date-time (with a quarter-hour offset) is transmitted as that same instant and offset. A relative validity period is transmitted as a period that is never longer than requested and falls short by less than one coding step of its range. Periods too short or too long to be coded, and times without a zone, are refused rather than altered.",
  ["inputs"],"every date and time 2000..2068 in range of the two-digit year, every offset -19:45..+19:45 in quarter hours, every duration 5 minutes..63 weeks, PDU mode and text mode",
  "Whole-hour sample zones and a few durations hide quarter-hour, negative and boundary errors.",
  [PDU,UTIL],[("PDU timestamps",PDU+":_decodeTimestamp/_encodeTimestamp"),("time zone",PDU+":SmsPduTzInfo"),("relative validity",PDU+":_encodeRelativeValidityPeriod"),("text-mode time",UTIL+":parseTextModeTimeStr")],
  ["date-time values in decoded PDUs and text-mode messages; validity octets of encoded PDUs"])
p("C06","GSM-7, septet, semi-octet and UCS2 codecs are exact and invertible",
  "Encoding then decoding with each codec returns the original value, and each codec agrees with the 3GPP tables on every value. Text outside an alphabet is refused, or, when discarding is asked for, exactly the unencodable characters are dropped and nothing else.",
  ["inputs"],"all single characters, all escape pairs, random strings and septet sequences of every length 0..200, digit strings of length 0..40",
  "Tests check a few strings; a wrong table entry or a lost final septet appears only for particular characters and lengths.",
  [PDU],[("GSM-7",PDU+":encodeGsm7/decodeGsm7"),("septets",PDU+":packSeptets/unpackSeptets"),("semi-octets",PDU+":encodeSemiOctets/decodeSemiOctets"),("UCS2",PDU+":encodeUcs2/decodeUcs2")],
  ["values returned by the public codec functions"])
p("C07","User-data-header elements keep identity and values",
  "Concatenation and port-address header elements, built by the user or decoded from octets, keep their reference, part count, part number and ports, choosing the 8-bit form exactly when the values fit and the 16-bit form otherwise; unknown elements keep their identifier and octets. Decoding what was encoded yields an equal element, and the reported element size is the number of octets it occupies.",
  ["inputs"],"any concatenation reference 0..65535 with parts/number 0..255, any ports 0..65535, any other identifier with 0..100 data octets, alone or several in one header",
  "Sample headers use small references and one element; 8/16-bit selection and element sizes differ only beyond them.",
  [PDU],[("information elements",PDU+":InformationElement, Concatenation, PortAddress")],
  ["encoded octets and decoded element attributes"])
p("C08","Every command gets its own response, whole and unmixed",
  "When any number of threads issue commands at once, commands reach the modem one at a time, and each caller receives exactly the response lines the modem sent for its own command, complete and in order up to its final result line. A response line that merely contains or begins with a result word does not end the response early.",
  ["schedules","inputs"],"any number of concurrent callers, any response content and chunking of the byte stream, any timing within the command timeout, any interleaving of the reader and caller threads",
  "Tests issue one command at a time against an instantaneous fake; mix-ups need concurrent callers, partial lines and unlucky thread switches.",
  [SER,MOD],[("command exchange",SER+":SerialComms.write"),("line dispatch",SER+":SerialComms._handleLineRead"),("reader thread",SER+":SerialComms._readLoop")],
  ["bytes at the serial port","value returned or exception raised by each call"],
  [("pending response","which command the reader is collecting lines for",SER+":SerialComms._responseEvent")])
p("C09","Unsolicited lines are delivered exactly once and in order",
  "Every complete non-empty line the modem sends while no command is waiting for a response is delivered to the notification handler exactly once, unaltered and in order, no later than when the line goes quiet. A line is never lost, duplicated, or held back until some later unrelated line arrives, and the reader thread survives whatever arrives.",
  ["schedules","inputs"],"any line contents, any chunking and back-to-back arrival, arrivals racing with the start and end of commands and command timeouts",
  "Tests send one notification to an idle port; losses happen when arrival races with a command's start or end.",
  [SER],[("line dispatch",SER+":SerialComms._handleLineRead"),("reader thread",SER+":SerialComms._readLoop"),("command exchange",SER+":SerialComms.write")],
  ["bytes at the serial port","lines passed to the notification callback","liveness of the reader thread"],
  [("notification buffer","lines read but not yet delivered",SER+":SerialComms._notification")])
p("C10","A silent or slow modem never blocks a caller past its timeout",
  "A command whose response does not complete within its timeout raises the timeout error, carrying the lines received so far if there were any, not earlier than the timeout and at most briefly after it. The connection stays usable: later commands and notifications behave as if the timed-out command had never been pending.",
  ["schedules","fault_sequences"],"any command, any partial response, any timeout, silence or stalls at any byte, followed by any further use",
  "Requires a modem that stalls mid-response at chosen bytes, and observing the state left behind.",
  [SER,MOD],[("timeout handling",SER+":SerialComms.write"),("timeout error",'gsmmodem/exceptions.py:TimeoutException')],
  ["virtual time at which each call returns","exception data","results of subsequent calls"])
p("C11","A failing or closed port is reported once and leaves nothing hanging",
  "If the serial device fails while reading, the fatal-error handler is called exactly once with the error, the connection is marked dead, its port released, and no further notification is delivered; waiting callers return or fail by their timeout. A failed write raises the device's error to its caller and does not disturb later traffic. Closing stops the reader, closes the port, and does not report an error.",
  ["fault_sequences","schedules"],"device read or write failure at any operation, close at any moment, with any commands or notifications in progress",
  "Tests raise one error on an idle port; failure during an exchange, or close racing with traffic, is never exercised.",
  [SER],[("reader thread",SER+":SerialComms._readLoop"),("close",SER+":SerialComms.close"),("command exchange",SER+":SerialComms.write")],
  ["fatal-error callback invocations","port state","thread exit","results of calls"])
p("C12","Modem errors surface as the right exception; busy replies are retried",
  "A command answered with an error result raises the exception for that error class with the modem's code and the command, and a command answered successfully never raises. When the modem answers that it or the SIM is busy, the same command is sent again after a pause until it is answered otherwise, the final outcome is returned, and later commands are neither lost nor slowed without bound.",
  ["inputs","fault_sequences"],"any error code and class, any number of busy replies before the final answer, error parsing on or off, any response text around the result",
  "Tests sample a few codes; the outcome depends on code, nesting of busy replies and text that resembles an error.",
  [MOD,'gsmmodem/exceptions.py'],[("error parsing and retry",MOD+":GsmModem.write"),("error classes",'gsmmodem/exceptions.py:CmeError/CmsError')],
  ["commands seen by the modem","exception type, code and command","virtual time spent"])
p("C13","The SIM PIN is sent only when asked for, and never twice",
  "During connect the PIN is sent only if the modem says the SIM is waiting for its PIN, exactly once, unmodified; it is never sent to a SIM that is ready, and a rejected PIN is never tried again. If no PIN was given and one is needed, or the PIN is rejected, connect raises the corresponding error.",
  ["configurations","fault_sequences"],"any modem behaviour: PIN needed or not, before or after reset, rejected, missing final OK on the PIN query, busy SIM, any PIN given or none",
  "A wrong second attempt burns SIM retries; the paths depend on modem quirks in combinations tests do not cover.",
  [MOD],[("SIM unlock",MOD+":GsmModem._unlockSim"),("connect sequence",MOD+":GsmModem.connect")],
  ["PIN commands seen by the simulated SIM","exception raised by connect"])
p("C14","After connect, any supported modem is configured and its SMSC preserved",
  "For every combination of modem capabilities and quirks, connect completes and leaves the modem with echo off, detailed errors on, the requested SMS mode, storage that exists on the device, new-message and delivery-report indications, and caller identification enabled wherever the device supports them. The service centre number in effect is the one requested by the user or else the one stored on the SIM, even if a configuration command clears it. An unsupported optional feature never makes connect fail.",
  ["configurations"],"any subset of optional commands supported or rejected, any storage sets, initial echo, power and SMS state, modem family, SMSC set, unset or cleared, text or PDU mode",
  "The fake modems are eight fixed devices; the space of capability combinations is exponential.",
  [MOD],[("connect sequence",MOD+":GsmModem.connect"),("SMSC handling",MOD+":GsmModem.smsc"),("storage selection",MOD+":GsmModem.connect (+CPMS)")],
  ["final state of the simulated modem","return or exception of connect"])
p("C15","Sending an SMS is atomic on the wire and returns the network's reference",
  "Each part of a message is submitted as one uninterrupted exchange: announced length, prompt, then exactly that PDU (or text) and the end mark, with no other command's bytes in between, whatever other threads or notification handlers do. Parts are sent once each and in order, successive long messages never share a concatenation reference, and the returned message carries the destination, text and the reference the modem assigned. If any step is refused or times out, the call raises and no message body is sent without its prompt; if a prompt comes only after the call has given up, nothing that is written later becomes text of that message.",
  ["schedules","fault_sequences"],"any number of threads sending messages and issuing commands, incoming messages and reports meanwhile, prompt delayed, refused or missing, PDU and text mode, single and multi-part",
  "Needs a command interleaved exactly between prompt and body, which single-threaded tests with instant replies never produce.",
  [MOD,SER],[("send",MOD+":GsmModem.sendSms"),("command exchange",SER+":SerialComms.write")],
  ["byte stream at the serial port parsed by the modem simulator","returned message object"],
  [("transmit lock","serialises exchanges",SER+":SerialComms._txLock")])
p("C16","Each incoming SMS is handed over exactly once and only it is deleted",
  "For every new-message indication, the message stored at the indicated place in the indicated memory is handed to the received-SMS callback exactly once with its exact content, and that message, and no other, is removed from the modem. This holds whatever memory was selected before, in whatever order indications arrive, and whatever commands run concurrently. A message that has been read is handed over even if the modem refuses, or does not answer, the deletion.",
  ["schedules","histories"],"any sequence and burst of messages over several memories, arriving between, during and right after commands, in PDU or text mode, under any thread interleaving",
  "Two handlers switching memory at once, or an indication beside other output, need bursts and interleavings no test produces.",
  [MOD,SER],[("new message handler",MOD+":GsmModem._handleSmsReceived"),("memory switching",MOD+":GsmModem._setSmsMemory"),("dispatch",MOD+":GsmModem.__threadedHandleModemNotification")],
  ["contents of the simulated message stores","callback invocations"],
  [("current memory","which store reads and deletes apply to",MOD+":GsmModem._smsMemReadDelete")])
p("C17","Delivery reports are matched to their own message and wake only its sender",
  "A delivery report changes the status of exactly the sent message with that reference: delivered if it says delivered, failed otherwise; until then it is en route. A send that waits for its report returns after its own report, and only then, even if the report arrives immediately, and times out otherwise; reports nobody is waiting for go to the report callback exactly once.",
  ["schedules","histories"],"any sequence of sends and reports in any order, reports for other or unknown messages, immediate, late and missing reports, concurrent waiting senders",
  "Needs reports that arrive out of order, instantly, or for other messages while a sender waits.",
  [MOD],[("report handler",MOD+":GsmModem._handleSmsStatusReport"),("waiting send",MOD+":GsmModem.sendSms"),("message status",MOD+":SentSms.status")],
  ["status of sent message objects","return or timeout of waiting sends","callback invocations"],
  [("sent messages","messages awaiting reports by reference",MOD+":GsmModem.sentSms")])
p("C18","Stored messages are read, listed and deleted faithfully",
  "Listing returns exactly the stored received messages and reports with the requested status in the requested memory, each with its own number, time, text and status, in order; reading an index returns that message; deleting removes exactly what was asked for in that memory. Listing with deletion or processing stored messages never removes a message it did not return, and a message that cannot be decoded never causes another message to be misattributed, lost or deleted. This also holds if the modem refuses a deletion, or does not answer a command (whether or not it carried it out).",
  ["histories","inputs"],"any contents of any memories including empty, undecodable, report and multi-line messages, any sequence of list, read, delete and process operations, PDU and text mode",
  "Requires stateful sequences against a modelled store with hostile contents; tests use canned responses.",
  [MOD],[("list",MOD+":GsmModem.listStoredSms"),("read",MOD+":GsmModem.readStoredSms"),("delete",MOD+":GsmModem.deleteStoredSms, deleteMultipleStoredSms"),("process",MOD+":GsmModem.processStoredSms")],
  ["returned message objects","contents of the simulated message stores"])
p("C20","A USSD request returns its own reply and session state",
  "A USSD request returns the network's reply text verbatim, with the session marked active exactly when the network keeps it open, whether the reply comes before, after or mixed with the acknowledgement, on one or several lines. With no reply it times out, a refused request raises the error, and neither leaves a state that makes a later request return a stale reply. Requests made by several threads at once each get their own reply, and a session that was replaced or cancelled is no longer active.",
  ["inputs","schedules"],"any reply text and line structure, any order and delay of reply and acknowledgement, release notices, unsolicited USSD before or after, sequences of requests, replies and cancellations",
  "Reply/acknowledgement order races and text resembling other notifications need generated modems and schedules.",
  [MOD],[("request",MOD+":GsmModem.sendUssd"),("notification",MOD+":GsmModem._handleUssd"),("parsing",MOD+":GsmModem._parseCusdResponse"),("session",MOD+":Ussd")],
  ["returned session object","commands seen by the modem"])
p("C21","Incoming calls are announced faithfully and tracked until they end",
  "Every ring of an incoming call reaches the call callback with the caller's number and call type as sent by the modem, repeated rings of one call refer to the same call with an increasing ring count, and different callers are different calls. Answering and hanging up send the corresponding command once; a call that was hung up or reported as ended leaves the list of active calls and is never confused with a later call.",
  ["histories","schedules"],"any sequence of rings from several callers, with or without caller identification and type, answers, hang-ups by either side, concurrent outgoing calls",
  "Call identity confusions need several overlapping or successive calls; tests use one.",
  [MOD],[("ring handler",MOD+":GsmModem._handleIncomingCall"),("call object",MOD+":IncomingCall, Call"),("active calls",MOD+":GsmModem.activeCalls")],
  ["callback invocations and call objects","commands seen by the modem"])
p("C22","Outgoing calls report the state the network reports",
  "Dialling sends the dial command once and returns a call for the requested number, or raises if the call is refused or not set up in time. Afterwards the call is answered exactly from when the modem reports it answered until it ends, is active until it ends, its status callback runs for each change, and other calls are unaffected; a status poll that the modem refuses or does not answer changes nothing.",
  ["histories","schedules","configurations"],"each supported modem family's call notifications (and polling), any order and timing of initiate, answer, reject and end events, several successive or parallel calls, local hang-up at any point",
  "Notification timing races and multi-call histories are not sampled by tests.",
  [MOD],[("dial",MOD+":GsmModem.dial"),("call updates",MOD+":GsmModem._handleCallInitiated/_handleCallAnswered/_handleCallEnded"),("polling",MOD+":GsmModem._pollCallStatus")],
  ["call object attributes and callbacks","commands seen by the modem"])
p("C23","DTMF tones are all sent, in order, in the device's own syntax",
  "Sending tones in an answered call transmits exactly the requested tones, in order, once each, in the syntax of the modem in use and for that call; in a call that is not answered nothing is sent and an invalid-state error is raised. A tone refused because the call ended raises the interruption error, and any other refusal raises the modem's error.",
  ["inputs","configurations"],"any tone string over the DTMF alphabet, any modem family, call identifier and call state, any error code",
  "Tests use a few strings on canned modems.",
  [MOD],[("tones",MOD+":Call.sendDtmfTone"),("device syntax",MOD+":GsmModem.connect")],
  ["DTMF commands seen by the modem","exception raised"])
p("C24","Modem queries report exactly what the modem answered",
  "Manufacturer, model, revision, serial number, subscriber identity, operator, signal strength, supported commands and SMSC queries return the values in the modem's answers, or none/unknown where the modem does not know. Waiting for network coverage returns the first positive signal strength after registration, raises an invalid-state error when registration is impossible, and times out no earlier than asked and promptly after.",
  ["inputs","histories"],"any answer values and formats, any history of registration and signal states over time, any timeout, supported or unsupported registration query",
  "Requires time-varying network state and format variety.",
  [MOD],[("queries",MOD+":GsmModem properties"),("coverage",MOD+":GsmModem.waitForNetworkCoverage")],
  ["returned values against the simulator's state","virtual time"])
p("C25","The command-completion store behaves as a map with exact prefix queries",
  "After any sequence of insertions, replacements and deletions, lookups, membership, size, listing, iteration, prefix listing and longest common prefix give exactly what a plain dictionary of the same content gives. No operation changes or loses any key other than the one it names.",
  ["histories"],"any sequence of operations with any strings as keys, including empty, one a prefix of another, and deleted and re-inserted keys",
  "Structural corruption depends on insertion order and prefix relations.",
  [TRIE],[("trie",TRIE+":Trie")],
  ["results of every public operation compared with a dictionary model"])
p("C26","The terminal's line editor sends exactly what the user typed",
  "For any sequence of keys, the line shown and the command sent are those of a plain line editor (insertion, backspace, delete, cursor movement, home/end, history), the cursor never leaves the line, and completion never removes typed text or inserts a command that does not start with it. In SMS entry the text sent is the text typed, Ctrl-Z submits and Escape cancels; no key sequence crashes the input loop.",
  ["histories","inputs"],"any key sequence up to hundreds of keys, including completion, history, help, SMS entry and notifications in between",
  "Editor defects depend on cursor position and key order.",
  [TERM,TRIE],[("key handling",TERM+":GsmTerm._inputLoop"),("confirm",TERM+":GsmTerm._doConfirmInput"),("completion",TERM+":GsmTerm._doCommandCompletion")],
  ["bytes written to the serial port","terminal screen contents","liveness of the input loop"])
p("C27","The command-line tools work end to end against a modem on a real port",
  "Against a modem on a real (pseudo) terminal, the send tool submits exactly the typed message to the given number and reports the outcome the modem gave, and the identify tool prints the modem's real information. Missing or wrong PINs, no coverage and timeouts end with the documented message and a non-zero status. The terminal program sends typed commands and messages over that port unchanged, shows the answers, and can be left at any time.",
  ["configurations","inputs"],"any destination and text, delivery report requested or not and positive or negative, PIN states, coverage states, device information",
  "No test runs the tools or the real serial driver at all.",
  ["tools/sendsms.py","tools/identify-modem.py","tools/gsmterm.py",SER],[("send tool","tools/sendsms.py:main"),("identify tool","tools/identify-modem.py:main"),("real port",SER+":SerialComms.connect")],
  ["bytes on the pseudo terminal","process output and exit status"])
p("C28","Modems used in one process do not influence one another",
  "When several modem connections live in one process, each sends its commands, including call and tone syntax, according to its own device only, and delivers its own messages, reports and call events to its own callbacks only. Connecting, using, failing or closing one never changes the behaviour of another.",
  ["configurations","schedules"],"any pair or triple of modem families connected in any order and used concurrently",
  "Tests use one modem at a time and reset shared state by hand.",
  [MOD,SER],[("per-device settings",MOD+":GsmModem.connect"),("call settings",MOD+":Call")],
  ["bytes at each serial port","callbacks of each connection"])
p("C29","SMS mode switches and SMSC changes by several threads take effect as a whole",
  "While one or several threads switch the SMS mode, other threads can send, read, list and delete messages, and messages and reports can arrive: each message is sent or read entirely in one mode, so what goes on air is the requested text and number, and what is returned or handed over is the stored message. Afterwards the mode reported and the mode in effect on the modem agree with the last switch; a refused switch is reported and changes nothing. The SMSC number likewise: after any concurrent assignments and reads, the number the object reports is the one the modem uses, and all parts of one long message go through one service centre, also if the modem did not answer one of the commands.",
  ["schedules","histories"],"any interleaving of mode switches (accepted or refused) and SMSC changes with sends, reads, listings, deletions, arrivals and reports, for texts that both modes can carry",
  "Tests set the mode once; the failure needs a switch between the steps of another operation.",
  [MOD],[("mode switch",MOD+":GsmModem.smsTextMode"),("sending",MOD+":GsmModem.sendSms"),("reading",MOD+":GsmModem.readStoredSms, _listStoredSms")],
  ["+CMGF, +CMGS, +CMGR and +CMGL at the modem","returned and handed-over messages"])
p("C30","An object that is connected again is as good as a new one",
  "After a connection has ended in any way (closed, connecting refused or timed out, or the device lost at any moment), connecting the same object again, to the same or another device or SIM, leaves the device in the state a new object with the same user settings would leave it in. From then on the object sends the same commands and gives the same results and callbacks as a new one; no call, message, report, USSD reply or setting of an earlier connection shows up.",
  ["histories","configurations","crash points"],"any sequence of up to three connections to devices of any families, with any operations, and any way of ending (close, refusal, timeout, loss of the device while idle, in a command, prompt, USSD session, call or burst of notifications)",
  "State left over from an earlier connection shows only after particular operations and endings; tests connect an object once.",
  [MOD,SER],[("connecting",MOD+":GsmModem.connect"),("port",SER+":SerialComms.connect, close"),("calls",MOD+":GsmModem.activeCalls")],
  ["commands at the modem and its state, compared with a new object on an identical device","results and callbacks"])
p("C31","The example programs of the documentation do what they say",
  "Run as documented (with the port, PIN and number set), each example program does with a modem of any supported family what its description says, whatever the call, message or session does. A dialled call that is answered gets exactly the configured tones and is hung up; one that is rejected, or ends before the tones or during them, is reported as that and nothing more is sent to it; a refused dial ends the program with the error. An incoming call is announced once, answered at the second ring, given the tones and hung up, and left alone if it stops ringing. Each received message is shown and answered exactly once, to its sender, and removed. The USSD reply is shown, and a session the network left open is closed. Programs that end leave no call behind, and nothing that keeps the process from ending.",
  ["inputs","schedules","configurations"],"any of the five programs, any modem family, calls that are answered, rejected, refused, ended or fail during the tones, 1 to 4 rings, messages single and in bursts, USSD replies of every kind, PIN and late coverage, any schedule",
  "No test runs the examples; they are what users start from, and combine several features of the library across threads.",
  ["examples",MOD],[("programs","examples/dial_callback_demo.py, dial_polling_demo.py, incoming_call_demo.py, sms_handler_demo.py, ussd_demo.py")],
  ["what the program prints","commands, tones and messages at the modem","how the program ends"])
p("C32","A connection that is used for a long time wears out nothing",
  "Whatever operations are repeated on a connection, successful or failing, each repetition gives the same results, callbacks and device state as the first one, however often it is done. When the operations are over, nothing is left of them: messages, calls and sessions that the user no longer holds are freed, and the number of live threads, the objects of the library, and everything that can be reached from the connection stop growing. After close() all threads of the connection have ended, the port is released, and the connection and everything belonging to it can be freed. An operation that failed (refused, unanswered, answered late, interrupted, with a callback that raised an exception, or because the device was lost or had to be connected again) does not make later ones fail.",
  ["histories","schedules"],"any sequence of operations (messages, reports, listings, calls, USSD, queries, mode switches, connecting again), repeated any number of times, in one or two threads, on any modem family",
  "A leak or a lock that stays held shows only after many repetitions or after a particular failure; tests make each call once on a new object.",
  [MOD,SER],[("connection state",MOD+":GsmModem"),("threads",SER+":SerialComms.connect, close, _readLoop"),("calls",MOD+":GsmModem.activeCalls"),("sent messages",MOD+":GsmModem.sentSms")],
  ["results, callbacks and device state of every round","live threads and objects after every round","after close(): threads, port, objects"])
p("C33","An error tells what the modem reported, and still does after it has been handed on; lookups in a response find what is there",
  "Every error that stands for a result code of the modem has the class of that code (including the special ones for PIN, PUK and SMSC number), tells the command, type and code, names them in its message, and is caught by the documented base classes; an interruption tells its cause, a timeout what had been received. This holds for any command and code, and just as well for copies of the error, pickled ones (as when it is passed to another process or kept in a queue or log), copies of copies, and errors inside containers or other errors. The lookups in the lines of a response return exactly the first line with the given beginning, the first match and all matches of a pattern, in order, whatever the lines are, and change nothing.",
  ["inputs"],"any command and code, any chain of copies; any list of lines, prefix and pattern",
  "Tests make a few errors and look at their class; the mapping has to hold for every code, and errors are copied and pickled by code outside the library.",
  ["gsmmodem/exceptions.py","gsmmodem/util.py"],[("errors","gsmmodem/exceptions.py:CommandError, CmeError, CmsError"),("lookups","gsmmodem/util.py:lineStartingWith, lineMatching, lineMatchingPattern, allLinesMatchingPattern")],
  ["class, attributes and message of errors and their copies","results of the lookups"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
