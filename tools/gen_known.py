#!/usr/bin/env python3
""" Writes /verif/known_findings.json: defects recorded but not repaired (findings), and defects repaired in /repo (fixed) """
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property, words of the commit's subject, what failed
FIXED = [
 ('C01', 'split long SMS texts', 'texts with extension characters or characters outside the BMP lost text, or overflowed a PDU, at part boundaries'),
 ('C06', 'map GSM-7 extension code 0x0A', 'form feed could not be encoded/decoded, and U+00FF raised TypeError'),
 ('C01', 'literal escape character', 'an ESC character in a text was sent as the GSM-7 escape code and swallowed the next character'),
 ('C01', 'empty GSM-7 text', 'sending an empty message raised StopIteration'),
 ('C01', 'outside the BMP', 'emoji could not be sent, and were received as two surrogates'),
 ('C03', 'exactly the announced number of GSM-7 characters', 'trailing @ was lost; a message after a header without fill bits lost or gained a character'),
 ('C02', 'useful semi-octets', 'alphanumeric destination addresses carried a wrong length'),
 ('C03', 'empty address field', 'an empty originator address shifted all following fields by one octet'),
 ('C04', 'EncodingError for all malformed', 'StopIteration, ValueError, TypeError and IndexError escaped from decodeSmsPdu()'),
 ('C05', 'quarter-hour time zone', 'text mode time stamps with a quarter-hour offset were rounded to the hour'),
 ('C08', 'only treat a whole line', 'a response line starting with OK or ERROR ended the response early'),
 ('C08', 'synchronise the read thread', 'response lines raced with the start/end of a command; a failed write left the state of a waiting command behind'),
 ('C09', 'hold back notifications', 'a notification followed by a partial line was held back until another one arrived'),
 ('C27', 'real serial ports', 'pyserial on Python 3 needs bytes; nothing worked on a real port'),
 ('C16', 'several are received at once', 'only the first of several notifications received in one batch was handled'),
 ('C12', 'waiting period of busy modems', 'every busy reply slowed all later commands further, and an SMS body was sent again without a prompt'),
 ('C24', '+CLAC responses', 'blanks stayed part of the command names of single-line +CLAC responses'),
 ('C21', 'every active call its own ID', 'two calls could share an ID; a call that ended removed a later one'),
 ('C28', 'DTMF command and support per modem', 'connecting one modem changed the tone command of every other'),
 ('C20', 'have no message', '+CUSD without a message raised an exception and the request timed out; a later +CUSD replaced the reply'),
 ('C22', 'answer notifications of unknown calls', 'answer notification of an unknown call killed the handler; call notifications raced with the end of dial()'),
 ('C15', 'interleave with sending an SMS', 'commands of other threads could be written between +CMGS and the message body, or between selecting a memory and using it'),
 ('C17', 'match SMS status reports', 'a report woke whichever sender was waiting'),
 ('C18', 'misattribute, skip or delete', 'unreadable, unsupported or empty messages were misattributed to another one or deleted unseen'),
 ('C16', 'while waiting for the response of a command', 'an indication received during a command was lost'),
 ('C25', 'iterating over a Trie', 'iteration raised RuntimeError'),
 ('C25', 'keep existing Trie keys', 'adding a prefix of an existing key lost that key; wrong longest common prefixes'),
 ('C26', 'terminal command completion', 'completion erased lower-case input'),
 ('C26', 'read terminal keys as str', 'keys were bytes on Python 3; pasted text was dropped; the terminal was left in raw mode'),
 ('C26', 'rejected the +CMGS command', 'the terminal entered SMS mode although the modem had refused the command'),
 ('C27', 'raw_input', 'sendsms.py failed on Python 3'),
 ('C21', 'other types than voice', 'a fax/data call raised KeyError in the notification thread and was not announced'),
 ('C06', 'backtick instead of the section sign', 'the section sign was sent as UCS2, a backtick was sent as (and 0x5F received as) the wrong character'),
 ('C02', 'announced TPDU length included', 'AT+CMGS announced a wrong length when a service centre number was given'),
 ('C11', 'checking for more data', 'an OSError from inWaiting() ended the read thread without marking the connection dead or reporting the failure'),
 ('C13', 'waiting for another code', 'with a blocked SIM (PUK) or a device waiting for PIN2/phone code, the PIN was entered there'),
 ('C15', 'had no space or more than one value', 'ValueError after the message had been sent (+CMGS: <mr>,<scts>), or the first digit of the reference was dropped (+CMGS:<mr>)'),
 ('C17', 'another notification just before the response', 'a notification such as ^RSSI in front of the +CMGR response made the handler fail: the message or report was neither handed over nor removed, a waiting sender timed out'),
 ('C18', 'if a draft or sent message is stored', 'listing raised CommandError, no message was returned'),
 ('C18', 'comma in their phonebook name', 'text mode: reading raised CommandError, listing left the message out (or added its text to another one)'),
 ('C18', 'lost deleted messages if the callback raised', 'the remaining messages had been deleted but were never handed over'),
 ('C18', 'single message has an invalid timestamp', 'text mode: listing raised ValueError, no message was returned'),
 ('C18', 'did not return status reports in text mode', 'text mode: stored reports were left out of the listing'),
 ('C22', 'call and USSD notifications issued just before', 'a call answered/ended notification, a ring or a USSD reply that raced with another command was swallowed by its response'),
 ('C21', 'ended by the caller answered another call', 'answer() of an incoming call that the caller had given up wrote ATA, which answered whatever other call was ringing'),
 ('C22', 'polling the status of an outgoing call was confused by other calls', 'modems without call notifications: with an incoming or a second outgoing call in progress dial() timed out or states were mixed up; a call answered at once was not seen as set up'),
 ('C22', 'listed without number or with the name', 'modems without call notifications: dial() timed out although the call had been set up, if +CLCC lists it without number or with a phonebook name'),
 ('C22', 'still active when its status callback was told', 'the status callback saw an ended call as active; if it raised, the call stayed active and listed'),
 ('C22', 'status callback that blocks or raises', 'modems without call notifications: after a raising (or while a blocking) status callback the end of the call was not noticed'),
 ('C22', 'confused by a call dialled right after it', 'modems without call notifications: redialling within 0.5 s of the end of a call left that call active for ever'),
 ('C22', 'dialled by several threads', 'dial() timed out (or raised AttributeError) although the call had been set up, if another thread called dial() meanwhile'),
 ('C24', 'could not end before the timeout', 'the timer thread of waitForNetworkCoverage(timeout) kept the process alive until the timeout'),
 ('C24', 'reports it with location information', '+CREG: 2,<stat>,"lac","ci" was taken for an unsupported command: coverage was reported without registration, denied registration was not noticed'),
 ('C24', 'network operator was not recognized in a response without space', 'networkName was None'),
 ('C24', 'first supported command was lost', 'supportedCommands lacked +CLAC'),
 ('C16', 'just before the response to AT+CMGR/AT+CMGL', 'in text mode an indication between AT+CMGR (or AT+CMGL) and its response was lost, and reading the message failed'),
 ('C14', 'responses with more than one value', 'connect() raised ValueError if the modem answers +CFUN: 1,0'),
 ('C14', 'optional +CGMI or +CSCA', 'connect() failed with CommandError'),
 ('C14', 'preferred message memory types', 'connect() failed with CommandError on devices without ME, SM and SR memories in some group'),
 ('C03', 'message waiting coding groups', '8-bit and UCS2 messages of those coding groups were decoded as GSM-7'),
 ('C26', 'outside of Latin-1 was typed', 'the raw terminal ended with UnicodeEncodeError'),
 ('C26', 'invisible and non-ASCII white space', 'zero-width and non-ASCII spaces entered the line, were sent to the modem and displaced the cursor'),
 ('C26', 'rest of the input line stayed on the screen', 'the screen showed characters that were no longer part of the line'),
 ('C26', 'keys were lost or misread', 'keys read in one chunk with others were dropped or taken for text'),
 ('C26', 'loading a file that is not a text file', 'UnicodeDecodeError ended the input loop'),
 ('C26', 'echoed command instead of the modem', 'the SMS prompt shown was the echoed command'),
 ('C26', "replaced the terminal's prompt", 'a notification received while entering an SMS became the prompt'),
 ('C26', 'completed commands in the text of an SMS', 'TAB replaced or extended the SMS text by an AT command'),
 ('C15', 'reference of the previous one', 'after a long message that was sent only partly, the next long one carried the same concatenation reference'),
 ('C21', 'refused to hang it up', 'hangup() refused by the modem left the call marked as not ringing: answer() then did nothing'),
 ('C21', 'ended at the moment it was answered', 'the end of a call handled while answer() or the answer notification was being processed left the ended call answered'),
 ('C29', 'switched between text and PDU mode', 'sendSms()/readStoredSms() in one thread used the old mode after another thread had switched the modem to the other one'),
 ('C30', 'previous device after connecting', 'connected to another device, an object sent the call commands, DTMF syntax and SMS settings of the previous device, and listed its calls'),
 ('C30', 'SMSC number of the previous SIM', 'connect() wrote the number read from the previous SIM (or device) with AT+CSCA'),
 ('C30', 'interrupted by the loss of the device', 'a notification left in a queue, or a partial one, was handled by the next connection'),
 ('C20', 'had been cancelled still counted as active', 'after cancel() of a USSD session, sessionActive stayed True, and reply() started a new session with the text as request'),
 ('C20', 'by several threads at once got lost', 'USSD requests of several threads: TimeoutException, AttributeError or the response to the request of another thread'),
 ('C29', 'two threads had set (or read) it at once', 'gsmModem.smsc stayed different from the number the modem uses after concurrent assignments or reads'),
 ('C21', 'indication could not be switched on again', 'a plain ring was lost with TimeoutException if the modem did not answer AT+CRC=1; after a refusal later typed rings had no call type'),
 ('C16', 'if the modem refused to delete it', 'a message (or report) that had been read was not handed over if the modem refused AT+CMGD; a send waiting for that report timed out'),
 ('C18', 'refused to delete another one', 'listStoredSms(delete=True) and processStoredSms() raised CommandError after other messages had been deleted without returning them'),
 ('C26', 'text of a cancelled SMS was shown', 'after ESC in SMS entry the screen could show the text of the message (or its prompt) as input line'),
 ('C18', 'had not answered a memory switch', 'after an unanswered AT+CPMS the next operations read and deleted in the memory selected before (or the one selected meanwhile)'),
 ('C18', 'did not answer their deletion', 'listStoredSms(delete=True) raised TimeoutException without returning the messages, although the modem had deleted them'),
 ('C29', 'had not answered the command that sets it', 'gsmModem.smsc kept the old number although the modem had taken the new one (its response was lost)'),
 ('C18', 'had not answered a mode switch', 'after an unanswered AT+CMGF the object took one mode for granted; setting the other one sent no command and messages were undecodable'),
 ('C15', 'prompted for it too late', 'after a prompt that came too late the next command (or message) was taken for the text of that message, and could be sent to its recipient'),
 ('C22', 'did not answer one status poll', 'a call on a polled modem was reported as ended when one AT+CLCC was not answered; its end was never reported if one was refused'),
 ('C05', 'with its time zone name raised', 'strftime("%Z") of the time of a received message raised NotImplementedError'),
 ('C31', 'call was being polled made the polling thread fail', 'closing the connection during AT+CLCC ended the polling thread with PortNotOpenError (dial_polling_demo.py)'),
 ('C32', 'without closing first', 'connect() called again on an open connection (e.g. with the PIN after PinRequiredError) left two threads reading from one port: lost and mixed up responses'),
 ('C32', 'after the caller had hung up', 'on modems without call status notifications every incoming call ended by the caller stayed in activeCalls; its next call could not be answered'),
 ('C27', 'does not end its response to a command', 'identify-modem.py -d raised TimeoutException on Wavecom modems'),
 ('C22', 'right after it had been set up', 'an answer or end that was notified together with the set-up of an outgoing call got lost: the call stayed unanswered/active for ever'),
 ('C33', 'could not be copied or unpickled', 'copy.copy()/pickle of CmeError, CmsError and InterruptedException with a cause raised TypeError'),
]
# mechanism = the oracle's verdict class (stable text, no random values); what = one line
FINDINGS = [
 {'property': 'C18', 'mechanism': 'arrival-deleted-unseen-by-list-all', 'what': 'listStoredSms(STATUS_ALL, delete=True) deletes with +CMGD=1,4: a message that arrives after the +CMGL response and before that command is deleted without being returned (the existing tests require this very command)'},
]
log = dict()
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'): log[s] = h
out = []
for prop, words, what in FIXED:
    m = [h for s, h in log.items() if words in s]
    assert len(m) == 1, (words, m)
    out.append('fixed: property=%s %s %s' % (prop, m[0], what))
left = set(log.values()) - {o.split()[2] for o in out}
assert not left, left
json.dump({'findings': FINDINGS, 'fixed': out}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(out), 'fixed', len(FINDINGS), 'findings')
