NOTE = 'For all inputs within the bounds reported in the evidence (no sampling): assertions and unwinding assertions decided by SAT, each harness shown non-vacuous by reachability witnesses. Trusts CBMC, the C library/file-system model in vf/, and the stubs listed in the evidence. '
p('C01', 'Network addresses survive printing, parsing and ordering',
  'Every zone:net/node.point address, printed and parsed again, is the same address, and a text is accepted as an address exactly when it is well formed, with omitted parts taken from the default address. Ordering addresses is a total preorder consistent with equality, apart from zone 0 meaning any zone.',
  ['inputs'], 'all addresses, all texts up to the stated length, all default addresses',
  'The tests parse a handful of addresses; the guarantee is over all 2^64 addresses and every malformed text.',
  ['shared/node4d.c', 'shared/node4d.h'], [('Parse4D/Parse4DTemplate', 'shared/node4d.c'), ('Print4D, Compare4D', 'shared/node4d.c')], NOTE + 'One address part at a time is symbolic in the round trip.')
p('C02', 'Node patterns match exactly the addresses they describe',
  'A node pattern (full, or zone/region/net/hub/node) accepts an address exactly when each of its parts matches, where * matches anything, ? one character and an omitted part what the documentation says. A destination pattern expands every address to the address the pattern describes.',
  ['inputs', 'configurations'], 'all patterns up to the stated length, all addresses, every nodelist answer',
  'Tests use a few literal patterns; wildcards, omitted parts and expansions combine without limit.',
  ['crashmail/node4dpat.c', 'crashmail/nl.c'], [('pattern parsing, comparison, expansion', 'crashmail/node4dpat.c')], NOTE + 'The nodelist is an arbitrary function.')
p('C03', 'Text wildcards match exactly what * and ? describe',
  'A text pattern matches a text exactly when it does so with * standing for the rest of the text (as documented) and ? for any one character, ignoring case; a text is taken for a pattern exactly when it contains one of the two.',
  ['inputs'], 'all patterns and texts up to the stated length',
  'Backtracking errors only show on particular pattern/text combinations.',
  ['oslib_linux/ospattern.c'], [('osMatchPattern', 'oslib_linux/ospattern.c')], NOTE)
p('C04', 'Configuration words and quoted strings are read back as written',
  'Reading words from a configuration line never runs past the line or the room given, stops at word boundaries and honours quotes and backslash escapes; a value written to the configuration file is read back unchanged.',
  ['inputs'], 'all lines up to the stated length, all start positions and buffer sizes',
  'Escapes at the end of the line, unterminated quotes and exact-fit buffers are never exercised.',
  ['shared/jbstrcpy.c', 'crashmail/config.c'], [('jbstrcpy, jbstrcpyrest', 'shared/jbstrcpy.c'), ('WriteSafely', 'crashmail/config.c')], NOTE)
p('C05', 'Filter expressions evaluate to what their formula means',
  'A filter expression of AND, OR, NOT, parentheses and conditions yields, for every truth value of its conditions, the value of its formula read from left to right as documented, and malformed expressions are reported rather than evaluated.',
  ['inputs', 'configurations'], 'all formulas of the shapes listed, all truth values',
  'Tests cover no expression; the errors found here depend on the shape of the formula and the values together.',
  ['shared/expr.c', 'crashmail/filter.c'], [('expression parser and evaluator', 'shared/expr.c')], NOTE)
p('C11', 'Echomail goes exactly once to exactly the links entitled to it',
  'A message arriving in an echo area is sent exactly once to every link of the area except the one it came from, passive or write-only links and, with SEEN-BY checking, nodes already in its SEEN-BY, and imported once unless the area is pass-through or a filter stops it. Mail from nodes that do not receive the area or may not write in it, and mail in unknown or unconfirmed areas, goes to the bad area and nowhere else; duplicates are neither imported nor passed on. The message sent lists in SEEN-BY the nodes it came with (same zone), every active link of our zone and ourselves.',
  ['inputs', 'configurations', 'histories'], 'all link sets (3 links), rights, flags, SEEN-BY contents, duplicate/filter answers, and leftovers of earlier messages',
  'The combination of link rights, area flags, SEEN-BY and message origin is far beyond the few messages a test tosses.',
  ['crashmail/handle.c'], [('HandleEchomail', 'crashmail/handle.c'), ('FindNodes2D', 'crashmail/handle.c')], NOTE + 'Duplicate database, filters, packet writer, messagebase are arbitrary stubs (they have their own properties).')
p('C12', 'SEEN-BY and PATH lines keep every node and stay within line limits',
  'Writing a SEEN-BY list as text and reading it back gives the same set of nodes, in lines of at most 79 characters; lists hold every node once and are sorted without loss. Adding our address to PATH appends it to the last line or a new one, changes nothing already there and repeats nothing.',
  ['inputs'], 'all node numbers within the list shapes stated',
  'Line breaks depend on the exact digits of the numbers on a line.',
  ['crashmail/memmessage.c', 'crashmail/handle.c'], [('mmMakeSeenByBuf, AddSeenby, mmSortNodes2D, mmAddNodes2DList', 'crashmail/memmessage.c'), ('AddNodePath', 'crashmail/handle.c')], NOTE + 'In the line-break harnesses the last node of a list is arbitrary, the ones before have fixed numbers of each digit length.')
p('C14', 'Netmail is imported, routed, bounced or held exactly as configured',
  'A netmail goes exactly one way: to the areafix, into the netmail area of its destination address (imported mail is marked so that it is never exported again), onward to the node its first matching route names, back as a bounce, or to the bad area when no route exists; mail killed by a filter goes nowhere. Mail written here with crash or hold goes directly to its destination, crash and hold on passing mail are ignored, and mail to unlisted nodes, unknown points or with unroutable file-attaches is bounced. Forwarded mail carries exactly one Via line of the address of its route, starting on a line of its own, and only the attributes that concern other systems.',
  ['inputs', 'configurations'], 'all addresses over a domain with every equality pattern, all attribute and configuration flags, any answers of patterns, nodelist, filters and loop detection',
  'Destination, routes, addresses, flags and attributes interact in more ways than the few netmails a test tosses.',
  ['crashmail/handle.c'], [('HandleNetmail', 'crashmail/handle.c'), ('HandleMessage', 'crashmail/handle.c')], NOTE + 'Pattern matching, nodelist, filters, loop detection, areafix, messagebase and packet writer are arbitrary or recording stubs (they have their own properties); two own addresses, three areas, two routes.')
p('C13', 'Exactly the last remembered messages are recognised as duplicates',
  'A message is a duplicate exactly when a message with the same MSGID in the same area is among the last messages recorded, as many as configured; different messages are never confused, whatever their checksums. This holds across restarts: closing and reopening the database keeps exactly the newest records and the file never holds more than the configured number after messages were added. When storing the database fails or the process ends at any point meanwhile, the next run still finds a readable database with the messages recorded before. Messages without MSGID are never duplicates.',
  ['inputs', 'histories', 'crash points', 'faults'], 'all histories of the lengths stated, all MSGIDs and areas of one character, every checksum function (collisions included)',
  'Losing or confusing messages needs a wrapped ring, a restart or a checksum collision at the right moment.',
  ['crashmail/dupe.c'], [('CheckDupe, AddDupeBuf, adddupeindex', 'crashmail/dupe.c'), ('OpenDupeDB, CloseDupeDB, copydupe', 'crashmail/dupe.c')], NOTE + 'Database file on the file-system model; faults and the end of the process anywhere while the database is stored (not while single records are appended).')
p('C08', 'Packets are read completely and damaged ones are set aside, never lost',
  'Every complete message of a packet is handed on once, in order, with its header strings and text exactly as in the packet. A packet that is cut anywhere, lacks its end mark, contains unknown message types or header strings that are too long, is set aside under a bad name after its complete messages were handed on, and no incomplete message ever is. When a message cannot be processed, or reading is interrupted, the packet is kept as it is. Reading strings and lines never exceeds the room given and loses nothing.',
  ['inputs', 'crash points', 'faults'], 'packets of one and two messages cut at the positions stated, arbitrary message types and end marks, any failure or interrupt; strings and lines: any bytes',
  'Tests toss only well-formed packets; damage can be anywhere.',
  ['crashmail/pkt.c'], [('ReadPkt', 'crashmail/pkt.c'), ('ReadNull, ReadCR', 'crashmail/pkt.c')], NOTE + 'The text of the packets in the structure harnesses is fixed except for the bytes stated; arbitrary contents are covered by the string and line harnesses.')
p('C10', 'Mail is accepted only from packets with the right password and destination',
  'For every packet header (types 2, 2+ and 2.2) the sending and receiving addresses are those in the header, with missing zones completed from the configured nodes and addresses. A packet from a node with a packet password is accepted only with that password (upper and lower case alike; netmail exempt if so configured), a packet addressed to another system is set aside if so configured, and a packet that is not read is set aside rather than deleted. Messages carry the addresses, zones, attributes and cost of their headers.',
  ['inputs', 'configurations'], 'every packet header and message header, all own addresses, nodes, flags and passwords of up to 3 characters',
  'Packet header variants, capability words and password rules interact; a test has one or two packets.',
  ['crashmail/pkt.c'], [('ReadPkt', 'crashmail/pkt.c')], NOTE + 'Two own addresses, two nodes, one message.')
p('C17', 'Incoming mail is deleted only after everything made from it is stored',
  'A packet or bundle in the inbound is deleted only when all of it was read and everything made from it was stored in the outbound; when reading, moving, storing or archiving fails or is interrupted, it is still there, or set aside under a bad name. Every packet is read exactly once, and a packet or bundle that was processed without error is deleted or set aside.',
  ['inputs', 'crash points', 'faults'], 'every combination of outcomes of reading two packets and a bundle of two packets, unpacking, moving aside, closing and archiving, and interrupts',
  'Failures in the middle of a toss are never produced by tests.',
  ['crashmail/toss.c', 'crashmail/crashmail.c', 'crashmail/misc.c'], [('TossDir, TossFile, TossBundle', 'crashmail/toss.c'), ('AfterScanToss', 'crashmail/crashmail.c'), ('BadFile', 'crashmail/misc.c')], NOTE + 'Reading of packets, unpacking, packet writer and archiving are stubs with arbitrary outcomes (they have their own properties).')
p('C18', 'Outgoing packets reach the outbound complete or are kept for the next run',
  'A finished packet is deleted only after its whole content was appended to the waiting mail of its destination, or was packed or moved and the result listed in the flow file of the right flavour (or noted as orphan and listed later exactly so). Whatever disk operation fails, whatever the packer returns (killed by a signal included) and wherever the process dies, the packet is still there or completely stored, mail already waiting is not changed, and nothing is touched while the mailer holds the node busy. Outbound names are the documented BinkleyTerm names of the address; a bundle is never that of another node, is continued until it is sent, too large or of another day, and nothing but empty bundles is removed.',
  ['inputs', 'crash points', 'faults'], 'arbitrary packet contents, every single or lasting failure and every point of death, any packer result; all addresses with zones up to 4095 for the names; bundle names for the situations listed with any sizes and limits',
  'Tests never fail a disk operation or a packer.',
  ['crashmail/outbound.c', 'crashmail/pkt.c', 'crashmail/misc.c', 'oslib_linux/osmisc.c', 'oslib_linux/osfile.c'], [('PackFile, ArchiveOutbound, MakePktTmp', 'crashmail/outbound.c'), ('MakeBaseName, MakeArcName, doAddFlow, HandleOrphan', 'crashmail/outbound.c'), ('FinishPacket', 'crashmail/pkt.c'), ('osExecute', 'oslib_linux/osmisc.c')], NOTE + 'Packet header shortened to 4 bytes and copying done 8 bytes at a time; one known finding (append_retry).')
p('C09', 'Packets written are well formed and contain exactly the message',
  'A message written for a node is in a packet for that destination, sender and priority (a new one only if there is none or it has reached the configured size), whose type 2+ header names the sending and receiving addresses including zones and points and carries the packet password of the destination (not in netmail packets if so configured) and no other data. The message has its addresses, attributes, cost, date, names, subject and text byte for byte, echomail is preceded by its area and followed by its SEEN-BY (the full list within our zone, otherwise or if so configured only destination and ourselves, points excepted; none if so configured) and PATH lines. Netmail is put with echomail only for nodes configured so and only if it has no other priority. Every failure to create or write is reported.',
  ['inputs', 'configurations', 'faults'], 'all addresses, flags, attributes and priorities, texts of the lengths stated with arbitrary characters, any one write failing',
  'What other systems receive is never read back by a test, least of all for points, other zones and nodes with passwords.',
  ['crashmail/pkt.c'], [('CreatePkt, FindPkt, pktWrite', 'crashmail/pkt.c'), ('WriteEchoMail, WriteNetMail, WriteMsgHeader, WritePath', 'crashmail/pkt.c')], NOTE + 'The text of SEEN-BY lines is C12.')
p('C16', 'Areafix changes only what the requesting node is entitled to change',
  'An areafix request changes something only when it comes from a configured node and carries its areafix password (upper and lower case alike). It then links the node only to echomail areas its groups allow and from which it is not banned, read-only where its groups say so, unlinks it only from areas it is linked to and not from areas marked mandatory, and never changes the links, flags, passwords or packer of another node. Rescans are made only of areas the node has, if allowed, and of as many messages as asked for. Requests are forwarded only for nodes that may do so, from lists whose group they may have. Lists show exactly the areas the node has or may have. Commands end at the tear line, replies go to the sender, and no request line is too long.',
  ['inputs', 'configurations'], 'all group, flag, link, ban and password configurations of the node in an area for every command; requests of one command of the forms listed; lines of 98 to 101 characters',
  'Group rights, bans, area flags and node flags combine per command; tests send no areafix request.',
  ['crashmail/areafix.c', 'crashmail/misc.c'], [('AreaFix, AddCommandReply, rawSendList', 'crashmail/areafix.c'), ('CheckFlags', 'crashmail/misc.c')], NOTE + 'Two nodes, three areas, one list; text of the commands fixed.')
p('C20', 'The JAM library keeps every message as stored',
  'A message added to a JAM messagebase is read back with the same header fields, subfields in order and text, byte for byte, also after the base has been closed and opened again, and is found by its recipient; it gets the next number after the base number, and adding, deleting or changing one message leaves all others as they were. Deleted messages and empty entries are no longer read, the numbers of the others stay; the base header counts the messages that are not deleted and every change. Nothing is changed without the lock, and everything is written before the lock is given up. When any file operation fails while a message is added, the caller is told and the messages already there stay readable. Each user has one last-read record, which is read back as written and never mixed with that of others. Damaged subfields are reported and nothing outside them is read. The checksum is the one of the JAM specification for every text.',
  ['inputs', 'faults', 'histories'], 'two messages with arbitrary header fields, subfield types and bytes in layouts of 0 to 8 bytes; every file operation of an add failing, once or from then on; all last-read records of up to two users; all contents of up to 24 bytes of subfields; all texts of up to 4 bytes for the checksum',
  'The four files refer to each other by offsets and counters; tests store a few messages of their own and never let a write fail.',
  ['jamlib/mbase.c', 'jamlib/message.c', 'jamlib/subpack.c', 'jamlib/lastread.c', 'jamlib/structrw.c', 'jamlib/crc32.c'], [('JAM_AddMessage, JAM_ReadMsgHeader, JAM_ChangeMsgHeader, JAM_DeleteMessage', 'jamlib/message.c'), ('JAM_CreateMB, JAM_LockMB, JAM_UnlockMB, JAM_FindUser', 'jamlib/mbase.c'), ('JAM_ReadLastRead, JAM_WriteLastRead', 'jamlib/lastread.c'), ('JAM_Crc32', 'jamlib/crc32.c')], NOTE + 'The files are modelled as bytes with positions; of the reserved 1000 bytes of the base header 8 are followed; a failing write leaves nothing half written.')
p('C21', 'Messages go into and out of JAM bases unchanged',
  'A message imported into a JAM base keeps its sender, recipient, subject, addresses, date, cost and attributes; its control lines become the matching typed fields in their order, INTL, FMPT and TOPT lines are dropped because the addresses hold them, and the rest of the text is stored byte for byte without line feeds. Success is reported only when the message has been stored. On export only messages that are not deleted and, unless rescanned, are local and not sent yet are handed on, with the same fields, control lines, text and attributes; netmail gets back INTL, FMPT and TOPT and a FLAGS line for the attributes that packets cannot carry, rescanned echomail a RESCANNED line. Afterwards the message is marked as sent, or deleted where the configuration says so, and nothing else of it changes; a failing read, lock, write or handler is reported. No message, however its control lines are cut off or long its fields are, makes the program read or write outside its buffers.',
  ['inputs', 'faults'], 'messages in fixed layouts with up to 48 control line words and arbitrary bytes, costs, dates and links; all attributes and the configuration switches; lock, read, write, flush and handler failing or not; fields of 0 to 205 bytes',
  'Each message is translated twice between two formats with many optional parts; tests cannot cover all combinations of attributes, configuration and failures.',
  ['crashmail/mb_jam.c'], [('jam_importfunc', 'crashmail/mb_jam.c'), ('jam_ExportJAMNum, jam_exportfunc, jam_rescanfunc', 'crashmail/mb_jam.c')], NOTE + 'The JAM library below is replaced by a recorder (it is covered by C20), and message handling above by a recorder of the message handed on.')
p('C22', 'JAM reply links lead exactly from messages to their answers',
  'After new messages have been imported into a JAM base, a message not linked yet whose REPLY identification is the MSGID of another message is linked to such a message if one of the two is new, and only such messages are: messages without identification are never linked, nor a message to itself. With quick linking the checksums decide, otherwise the identifications themselves. Links that were there are never altered; new answers are put at the end of the chain of answers, so every answer is found from the message it answers and chains end. Nothing but the links of a header changes, only under the lock, and the base is never left locked. Links that lead outside the base or in a circle do no harm.',
  ['inputs', 'histories', 'faults'], 'bases of two to four messages, none to all of them new, with any checksums, identifications of up to two bytes, unreadable headers and links; lock or second read failing',
  'The links form lists over the whole base that depend on the order of all messages; tests link one or two.',
  ['crashmail/mb_jam.c'], [('jam_linkmb, jam_setreply, jam_CompareMsgIdReply', 'crashmail/mb_jam.c')], NOTE + 'The JAM library below is replaced by a stand-in (it is covered by C20).')
p('C28', 'Paths and command lines are put together exactly and within their buffers',
  'A directory and a file name are joined with exactly one separator, no separator is added to an empty directory, and the file part of a path is what follows its last separator. In packer and filter commands every placeholder is replaced by its value, %% and other characters after a percent sign stand for themselves, and everything else is copied as it is; the result does not depend on what the values contain. Whatever does not fit is cut off at the end: the result is always terminated and nothing is ever written outside the buffer, whatever the lengths of directories, names, subjects and commands.',
  ['inputs'], 'all directories, names, commands and values of up to 3 to 20 characters, buffers of 1 to 16 bytes',
  'The values come from the network and from the configuration; an overflow needs a particular combination of lengths.',
  ['shared/path.c', 'shared/mystrncpy.c', 'crashmail/misc.c'], [('MakeFullPath, GetFilePart', 'shared/path.c'), ('mystrncpy', 'shared/mystrncpy.c'), ('ExpandPacker, ExpandFilter', 'crashmail/misc.c')], NOTE + 'Quoting for the shell is not part of it: the values are inserted as they are.')
p('C29', 'Incoming files are recognised by name and content and taken in order',
  'Exactly the files whose names are those of packets (eight characters and .pkt), bundles (eight letters or digits and a weekday with one character), packets being written, packets not packed yet, orphans and bad files are taken for such, upper and lower case alike. Files are processed oldest first, those of the same time in the order of their names, each exactly once. A bundle is given to the first packer whose recognition characters, hexadecimal codes and wildcards fit the start of the file, and to none when none fits or the file cannot be read; only the bytes of the file decide. A bad file is moved to the first free .bad name in the inbound, never over an existing file, and when that fails the error is remembered, so that the file is not deleted.',
  ['inputs', 'faults'], 'all names of up to 13 (thorough 16) bytes; up to three files with any dates and names of up to two characters; all files of up to 85 bytes with fixed packers and all packers of up to 3 (thorough 5) characters; all hexadecimal numbers of up to 9 digits; up to 3 names taken, moving fails or not',
  'A name or byte taken for something else loses or misprocesses mail; tests look at a few names.',
  ['crashmail/misc.c', 'crashmail/toss.c'], [('IsArc, IsPkt, IsNewPkt, IsPktTmp, IsOrphan, IsBad, SortFEList, hextodec, BadFile', 'crashmail/misc.c'), ('Compare, DetectPacker', 'crashmail/toss.c')], NOTE + 'The directory, file contents and moving are stand-ins.')
