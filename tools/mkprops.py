#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p('P01', 'FidoNet address text and address values correspond exactly',
  'Writing any 4D address as text and reading that text back gives the same address, and the text names the point only when it is non-zero. '
  'Reading an address accepts exactly texts made of digits with the separators ":" "/" "." each at most once and in that order, fills in every part the text names and takes every part it does not name from the template (or 0), and rejects all other texts.',
  ['inputs'], 'all 2^64 addresses; all texts and all templates',
  'The suite parses a handful of fixed addresses; the value space is 2^64 and malformed texts are not sampled at all.',
  ['src/shared/node4d.c'], [('Print4D', 'src/shared/node4d.c'), ('Parse4D', 'src/shared/node4d.c'), ('Parse4DTemplate', 'src/shared/node4d.c')])

p('P02', 'Address comparison is a consistent total comparison by zone, net, node, point',
  'Comparing two addresses reports equality exactly when net, node and point agree and the zones agree or one of them is unknown (0); otherwise its sign is that of the first differing part in the order zone, net, node, point. '
  'Swapping the operands negates the result, and neither operand is changed.',
  ['inputs'], 'all pairs of addresses', 'The suite exercises a few addresses with equal zones; every routing, AKA and permission decision relies on this for all of them.',
  ['src/shared/node4d.c'], [('Compare4D', 'src/shared/node4d.c')])

p('P03', 'Node patterns match exactly the addresses the documentation says',
  'A node pattern matches an address exactly when each part matches: "?" stands for one digit, "*" for any remainder, everything else literally, a missing point means point 0, and "*" alone means every address; ZONE, REGION, NET, HUB and NODE patterns match by zone, nodelist region, net, nodelist hub and node-with-all-points respectively, and match nothing when the nodelist data they need is absent. '
  'Reading any pattern text never touches memory outside the pattern.',
  ['inputs', 'configurations'], 'all pattern texts, all addresses, all nodelist answers',
  'Tests use two or three literal patterns; routing, AKA, packing and AreaFix decisions depend on every pattern.',
  ['src/crashmail/node4dpat.c'], [('Compare4DPat', 'src/crashmail/node4dpat.c'), ('Parse4DPat', 'src/crashmail/node4dpat.c'), ('Parse2DPat', 'src/crashmail/node4dpat.c'), ('Compare2DPat', 'src/crashmail/node4dpat.c')])

p('P04', 'Routing destinations expand to the right node',
  'Expanding a routing destination for a message yields, for a pattern, each literal number as written and each wildcard part copied from the destination address, and for ZONE, REGION, NET, HUB and NODE the zone gate, region host, net host, hub or boss node of the destination, falling back to the net host when the nodelist knows no region or hub.',
  ['inputs', 'configurations'], 'all destination patterns, addresses and nodelist answers',
  'One ROUTE line is tested.', ['src/crashmail/node4dpat.c'], [('ExpandNodePat', 'src/crashmail/node4dpat.c')])

p('P05', 'Text patterns match exactly the texts the documentation says',
  'A text pattern (area names, file names, filter strings) matches a text exactly when, character by character and regardless of case, "?" stands for any one character, "*" for whatever remains, and every other character for itself. '
  'A text is treated as a pattern exactly when it contains "?" or "*".',
  ['inputs'], 'all patterns and texts', 'Tests use no wildcards.', ['src/oslib_linux/ospattern.c'], [('osMatchPattern', 'src/oslib_linux/ospattern.c'), ('osIsPattern', 'src/oslib_linux/ospattern.c')])

p('P06', 'Text handling stays inside its buffers and delivers the documented text',
  'Copying, joining paths, splitting configuration lines into words, stripping blanks and expanding command templates never read or write outside the texts and buffers involved, always terminate the result, and deliver the longest part that fits of exactly the specified text. '
  'Words of a line obey double quotes and backslash escapes, and the reading position ends right behind the word even when the word was cut; a command template has each placeholder replaced by its value and everything else kept.',
  ['inputs'], 'all texts, buffer sizes and templates', 'Overruns need inputs of exactly the wrong length, which the fixed test configuration does not contain.',
  ['src/shared/jbstrcpy.c', 'src/shared/mystrncpy.c', 'src/shared/path.c', 'src/crashmail/misc.c'],
  [('word parsing', 'src/shared/jbstrcpy.c'), ('bounded copy', 'src/shared/mystrncpy.c'), ('paths', 'src/shared/path.c'), ('ExpandPacker/ExpandFilter/strip*', 'src/crashmail/misc.c')])

p('P09', 'Message text is kept byte for byte and control lines set exactly their field',
  'Adding text to a message in memory appends exactly those bytes, however they fall on the internal blocks. '
  'An MSGID, REPLY or RESCANNED line sets that field only, INTL, FMPT and TOPT lines set sender and recipient of netmail only, the origin line sets the origin address of echomail, SEEN-BY and PATH lines of echomail go to their lists, and all other lines stay in the text as received; reading a line never goes beyond its end.',
  ['inputs'], 'all message texts and control lines', 'Tests toss one well-formed packet; malformed, empty and over-long control lines do not occur.',
  ['src/crashmail/memmessage.c', 'src/crashmail/misc.c'],
  [('mmAddBuf', 'src/crashmail/memmessage.c'), ('mmAddLine/ProcessKludge', 'src/crashmail/memmessage.c'), ('ExtractAddress', 'src/crashmail/misc.c')])

p('P10', 'SEEN-BY lists behave as sets and are written so that others read the same set',
  'Adding a node to a SEEN-BY list puts it there once and keeps all others, removing a node or a pattern removes exactly the matching nodes, and sorting only reorders, by net and then node. '
  'The SEEN-BY lines written for a list name exactly its nodes in order, repeat the net at the start of every line and otherwise only when it changes, and stay below 80 characters; SEEN-BY lines read back add exactly the nodes they name.',
  ['inputs'], 'all lists and node numbers', 'Distribution loops and duplicate feeds come from rare list shapes (block boundaries, wrapped lines) the tests do not have.',
  ['src/crashmail/memmessage.c'], [('mmAddNodes2DList', 'src/crashmail/memmessage.c'), ('mmRemNodes2DList', 'src/crashmail/memmessage.c'), ('mmSortNodes2D', 'src/crashmail/memmessage.c'), ('mmMakeSeenByBuf', 'src/crashmail/memmessage.c'), ('AddSeenby', 'src/crashmail/memmessage.c')])

p('P17', 'Filters act on exactly the messages their expressions describe',
  'A filter expression has the value its documentation gives it: every variable reflects the message and configuration, "=" and "|" compare and search without regard to case, NOT, AND, OR and parentheses combine as written, and a malformed expression is an error rather than a value. '
  'For every message the commands of all matching filters, and no others, run in order until the message is killed, and copying a message to another area leaves the message itself unchanged.',
  ['inputs', 'configurations'], 'all expressions, messages and configurations',
  'The tests configure no filter at all.', ['src/crashmail/filter.c', 'src/shared/expr.c'],
  [('filter_evalfunc', 'src/crashmail/filter.c'), ('bmfind', 'src/crashmail/filter.c'), ('expr_eval', 'src/shared/expr.c'), ('Filter', 'src/crashmail/filter.c')])

p('P07', 'Inbound packets are read exactly: every message once, in order, as stored',
  'Reading a packet of type 2, 2+ or 2.2 hands over every message of the packet exactly once and in order, with the sender, recipient, attributes, header strings, area and text lines that the packet stores, and zones and points taken from the fields its format assigns to them. '
  'A packet that is truncated, has over-long fields or is not a packet is never read outside its fields and is set aside as bad, and packets not addressed to this system (where the configuration asks for it) or without the password agreed with their sender are refused.',
  ['inputs', 'faults'], 'all packet contents and truncation points',
  'Tests toss one well-formed packet.', ['src/crashmail/pkt.c'], [('ReadPkt', 'src/crashmail/pkt.c'), ('ReadNull', 'src/crashmail/pkt.c'), ('ReadCR', 'src/crashmail/pkt.c')])

p('P08', 'Outbound packets are complete, readable and never mix nodes or flavours',
  'Every message written to a packet appears there exactly once with its sender, recipient, attributes, header strings and full text, in a packet whose header names the sending and receiving systems and whose end is marked. '
  'Messages share a packet exactly when they go to the same system with the same flavour, a packet beyond the configured size is finished and a new one begun, no packet is ever replaced by another one, and a failed write is reported and never yields a packet that is passed on.',
  ['inputs', 'faults', 'histories'], 'all messages, sequences of destinations and flavours, and every failing write',
  'Tests export a single message and never fail a write.', ['src/crashmail/pkt.c'],
  [('WritePkt', 'src/crashmail/pkt.c'), ('FindPkt/CreatePkt/FinishPacket', 'src/crashmail/pkt.c'), ('ClosePackets', 'src/crashmail/pkt.c')])

p('P13', 'A message is a dupe exactly when its like was seen among the remembered ones',
  'Echomail is reported as a dupe exactly when a message with the same area and MSGID is among the remembered ones, every new message with an MSGID is then remembered, and messages without one are never dupes. '
  'The memory keeps the newest configured number of entries across runs, survives damaged or truncated files without reading outside them, and a failed rewrite leaves the previous file intact.',
  ['inputs', 'histories', 'faults'], 'all histories of messages, dupe files and failing writes',
  'Tests toss one message twice at most.', ['src/crashmail/dupe.c'],
  [('CheckDupe', 'src/crashmail/dupe.c'), ('OpenDupeDB', 'src/crashmail/dupe.c'), ('CloseDupeDB', 'src/crashmail/dupe.c')])

p('P16', 'Inbound mail is removed only after all of it has been handled',
  'An inbound packet or bundle is deleted only when every message in it was handed over and accepted, the outgoing packets were completely written and the results were archived; whatever fails or is interrupted before that, at any point, the inbound file stays in place or is kept as a bad file. Packets and bundles are recognised by exactly their standard names.',
  ['faults', 'histories'], 'every outcome of reading, unpacking, writing and archiving, and a break at any point',
  'Tests run a toss without faults.', ['src/crashmail/toss.c', 'src/crashmail/safedel.c', 'src/crashmail/crashmail.c', 'src/crashmail/pkt.c'],
  [('TossDir/TossFile/TossBundle', 'src/crashmail/toss.c'), ('AfterScanToss', 'src/crashmail/crashmail.c'), ('SafeDelete', 'src/crashmail/safedel.c')])

p('P11', 'Echomail is accepted only from linked writers and reaches every linked node once',
  'Echomail from a node that is not linked to the area or has read-only access, or for an unconfirmed area, is never distributed or imported but kept as bad mail with its reason; all other echomail that is no dupe and not killed goes exactly once to every linked node except the sender and passive, write-only or already served nodes, and is imported exactly once. '
  'The SEEN-BY and PATH sent along name the previous systems, the linked nodes served and this system as configured, and an unknown area is created with the settings of its default area and active only for senders allowed to add areas.',
  ['inputs', 'configurations', 'faults'], 'all addresses, link and node flags, area flags, settings and outcomes of the parts involved',
  'Tests toss to one linked node with full access.', ['src/crashmail/handle.c'],
  [('HandleEchomail', 'src/crashmail/handle.c'), ('AddArea', 'src/crashmail/handle.c'), ('WriteBad', 'src/crashmail/handle.c'), ('AddNodePath', 'src/crashmail/handle.c'), ('HandleRescan', 'src/crashmail/handle.c')])

p('P12', 'Netmail is imported, answered, routed, bounced or kept, exactly one of these',
  'Netmail to this system is imported into the area of its address (or answered by AreaFix), and all other netmail is sent on once, by the first matching route, with the configured flavour, only the transferable attributes and a Via line, unless it is bounced for one of the configured reasons or kept as bad mail because no route matches. '
  'Attached files are taken from the inbound directory only, travel to the same system as the message and are queued for deletion only when they are copies; bounces, receipts and audits go once to the sender and are never bounced themselves, and a Via line of this program naming an own address is recognised as a loop.',
  ['inputs', 'configurations', 'faults'], 'all addresses, attributes, settings and outcomes of the parts involved',
  'Tests route one netmail.', ['src/crashmail/handle.c', 'src/crashmail/misc.c'],
  [('HandleNetmail', 'src/crashmail/handle.c'), ('IsLoopMail', 'src/crashmail/handle.c'), ('Bounce', 'src/crashmail/handle.c'), ('ChangeType', 'src/crashmail/misc.c')])

p('P15', 'Outgoing packets reach the outbound of their node or are kept for a later try',
  'Every finished packet is appended to, packed into or moved to the outbound of exactly the node and flavour it was written for, under the name the Binkley-style layout gives that node, with its bundle entered once in the flow file; if the node is busy, the packer fails or something cannot be written, the packet or an order file stays and the next run tries again. '
  'Mail and entries already waiting in the outbound are kept, the busy mark is released exactly when this program set it, and bundle names are well-formed, remembered, never shared between nodes and continued only within the size limit.',
  ['inputs', 'faults', 'histories'], 'all addresses, outbound contents, bundle names and every outcome of locking, packing, moving and writing',
  'Tests pack one bundle in an empty outbound.', ['src/crashmail/outbound.c', 'src/crashmail/misc.c'],
  [('PackFile', 'src/crashmail/outbound.c'), ('AddFlow/HandleOrphan', 'src/crashmail/outbound.c'), ('MakeBaseName', 'src/crashmail/outbound.c'), ('MakeArcName', 'src/crashmail/outbound.c'), ('ArchiveOutbound', 'src/crashmail/outbound.c')])

p('P19', 'AreaFix changes only what the requesting node may change',
  'A remote area request changes nothing unless it comes from a configured node with its password, and then only links and settings of that node: it is linked only to areas of its groups it is not banned from, read-only where configured, stays linked to mandatory areas, and gets rescans and forwarded requests only where allowed. '
  'Links and settings of other nodes are kept, an area is removed only when its feed leaves or nobody needs it and removal is configured, and area lists show exactly the areas the node is linked to or may link to.',
  ['inputs', 'configurations'], 'all groups, area, link and node flags, bans and settings, for every kind of command',
  'Tests link one node to one area.', ['src/crashmail/areafix.c'],
  [('AreaFix', 'src/crashmail/areafix.c'), ('rawSendList', 'src/crashmail/areafix.c'), ('FindForward', 'src/crashmail/areafix.c')])
p('P14', 'Messages stored in JAM bases are complete and come out as they went in',
  'A message imported to a JAM base is entered under the next number with its header, attributes, kludges and text complete, the index entry last and under the lock, and a failed write is reported and never touches earlier messages; exporting it gives the same message again. '
  'A scan hands over exactly the local, unsent, undeleted messages behind the highwater mark, once and in order, and marks a message sent only after it was accepted; the mark moves only after a complete scan. '
  'Linking answers changes nothing but links, ties a message only to those it answers, and damaged bases are never read or followed outside their files.',
  ['inputs', 'faults', 'histories'], 'all message headers, texts and attributes, base contents and every outcome of locking, reading and writing',
  'Tests import a couple of plain messages to an intact base.', ['src/crashmail/mb_jam.c', 'src/jamlib'],
  [('jam_importfunc', 'src/crashmail/mb_jam.c'), ('jam_ExportJAMNum', 'src/crashmail/mb_jam.c'), ('jam_exportfunc', 'src/crashmail/mb_jam.c'), ('jam_linkmb', 'src/crashmail/mb_jam.c'), ('JAM_AddMessage', 'src/jamlib/message.c')])
p('P18', 'Messages in *.msg directories are kept whole and never overwritten',
  'A message imported to a *.msg area is stored complete, header, text, SEEN-BY (where configured) and PATH, under the next free number; no existing file is replaced and a failed write is reported. '
  'A scan hands over exactly the local, unsent messages behind the highwater mark, once, in order and complete, and changes, marks or removes a message only after it was accepted; a rescan changes nothing, and the mark moves only after a complete scan.',
  ['inputs', 'faults', 'histories'], 'all headers, attributes and texts, directory contents, marks and every outcome of writing and handing over',
  'Tests import a couple of messages to an empty directory.', ['src/crashmail/mb_msg.c'],
  [('msg_importfunc', 'src/crashmail/mb_msg.c'), ('msg_WriteMSG', 'src/crashmail/mb_msg.c'), ('msg_ExportMSGNum', 'src/crashmail/mb_msg.c'), ('msg_exportfunc', 'src/crashmail/mb_msg.c'), ('msg_afterfunc', 'src/crashmail/mb_msg.c')])
#MORE
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
