#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the source of truth for the wording is this file).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
X="src/mvrxchange/"
p("C01","MVR-xchange messages arrive intact, once, at exactly the addressed members",
 "Every message a connected station sends reaches the receive callback of each addressed group member at most once per announced address (exactly once when the network works), with every field unchanged: type, names, comments, file names, sizes, versions, UUIDs and lists, including the commits of a join; the packet on the wire carries the documented header. The member's answer reaches the sender's return callback unchanged, and members outside a message's explicit recipient list receive nothing. Segmentation, delay, partial reads and writes, and concurrent connections never alter, merge, duplicate or misdirect a message.",
 ["schedules","inputs","fault_sequences"],"all messages, all groups of stations, all TCP segmentations, delays, interruptions and interleavings",
 "The unit tests encode and decode single packets and connect two real stations on one loopback; no test varies segmentation, latency, peer failure or the interleaving of several sessions.",
 [X+"CMVRxchangeService.cpp",X+"mvrxchange_message.cpp",X+"mvrxchange_session.cpp",X+"mvrxchange_client.cpp",X+"mvrxchange_dynamic_buffer.cpp"],
 [("length-prefixed packet header and JSON body",X+"mvrxchange_message.cpp"),("composed async reads and writes",X+"mvrxchange_session.cpp"),("recipient filter",X+"CMVRxchangeService.cpp")],
 ["IMVRxchangeService::OnMessage callbacks","IMVRxchangeService::Send_message"])
p("C02","Sending finishes in bounded time and isolates failing peers",
 "A send call returns within the documented per-peer limits (about 1 s to connect and 10 s each for writing, header and body) whatever the peers or the network do: refuse, vanish, stall at any byte, reset, or answer garbage. It never throws and never terminates the process; the return callback fires only for peers that really answered, and a failing peer never prevents delivery to, or the answer of, another peer.",
 ["schedules","fault_sequences"],"all mixtures of healthy, dead, partitioned, stalling, resetting and garbage-answering peers, with failures at any byte",
 "No test has an unreachable, stalling or resetting peer; each one needs a fault at a chosen point of the exchange.",
 [X+"CMVRxchangeService.cpp",X+"mvrxchange_client.cpp"],
 [("per-operation deadlines",X+"mvrxchange_client.cpp"),("one task per address",X+"CMVRxchangeService.cpp")],
 ["IMVRxchangeService::Send_message","IMVRxchangeMessage answer callbacks"])
p("C03","Group membership follows the joins and leaves that happened",
 "Once a joined station's announcement and join message have been delivered, every station already connected to the same service sends to it, exactly once per message; after a station has left the service, the stations that received its leave message no longer send to it; a station that joins again, possibly on a new port, replaces its earlier membership instead of duplicating it. Stations of other service names are never members, and a station that has left sends to nobody of its former group.",
 ["histories","schedules","fault_sequences"],"all histories of connect, leave, re-connect and crash-restart of several stations, under any delivery order",
 "The existing test joins two stations once; the histories (leave, rejoin, rename, crash then rejoin) and delivery orders that matter are never run.",
 [X+"CMVRxchangeService.cpp"],[("member list updates on join and leave messages",X+"CMVRxchangeService.cpp"),("mDNS refresh",X+"CMVRxchangeService.cpp")],
 ["messages received by other stations"],[("group members","addresses a message is sent to",X+"CMVRxchangeService.cpp")])
p("C04","Discovery lists what stations announced, and always terminates",
 "A query for local services returns within a few seconds under any packet loss, delay, duplication, interruption or interface failure. Every listed entry carries a consistent service name, station name, UUID, address and port that one station really announced, never mixes two stations, lists no station twice and never the caller itself; on a working network every announced station is listed. Entries are readable by index and only existing indices succeed, and a connected station keeps its background refresh to its slow schedule whatever connects, disconnects or clock changes happened before.",
 ["schedules","fault_sequences","configurations"],"all sets of announcing stations, all UDP loss, duplication and reorder patterns, system-call failures and system clock jumps",
 "Tests look up one station over a loss-free host; lost, duplicated and reordered datagrams, EINTR and clock jumps are outside what they can produce.",
 [X+"CMVRxchangeService.cpp","mdns_cpp/src/mdns.cpp","mdns_cpp/src/mdns.h"],
 [("query and record correlation","mdns_cpp/src/mdns.cpp"),("result list under its mutex",X+"CMVRxchangeService.cpp")],
 ["IMVRxchangeService::QueryLocalServices","IMVRxchangeService::GetLocalServiceAt"])
p("C05","A station survives hostile TCP peers and keeps serving",
 "Whatever bytes a TCP peer sends to a connected station, however they are cut, and whenever the peer stalls, resets or disconnects, the station neither crashes, hangs, corrupts memory nor leaks the connection; malformed or unparseable messages are reported to the callback as undefined or failed rather than as valid messages. Well-behaved peers connecting at the same time or afterwards are served normally.",
 ["inputs","fault_sequences","schedules"],"all byte streams, all cut points, all disconnect and reset times, any number of simultaneous peers, failing accept calls",
 "Tests only feed well-formed JSON to the decoder; header lies, oversized fields, partial packets and resets mid-packet are not exercised.",
 [X+"mvrxchange_session.cpp",X+"mvrxchange_server.cpp",X+"mvrxchange_message.cpp",X+"mvrxchange_dynamic_buffer.cpp"],
 [("header validation and body allocation",X+"mvrxchange_message.cpp"),("session ownership",X+"mvrxchange_server.cpp")],
 ["IncomingCallback","process liveness"])
p("C06","mDNS processing survives arbitrary datagrams",
 "Any datagram arriving on the mDNS port - truncated, corrupted, self-referencing name compression, lying lengths or counts, empty text records, oversized names - is ignored or decoded within its own bounds: no crash, no out-of-bounds access, no endless loop, both while announcing and while querying. The station keeps answering later well-formed queries, and system-call interruptions do not silence it.",
 ["inputs","fault_sequences"],"all datagram contents, arriving at any time during announce and query",
 "There is no test of the mDNS parser at all.",
 ["mdns_cpp/src/mdns.h","mdns_cpp/src/mdns.cpp",X+"CMVRxchangeService.cpp"],
 [("DNS name and record parsing","mdns_cpp/src/mdns.h"),("responder loop","mdns_cpp/src/mdns.cpp"),("TXT parsing",X+"CMVRxchangeService.cpp")],
 ["UDP port 5353"])
p("C07","Connecting, leaving and destroying a station always terminates and cleans up",
 "Any sequence of connect, reconnect, query, send, leave and release calls returns in bounded time under any schedule and network condition, with no crash or use of freed memory. Once the object is released no thread, socket or other descriptor of it remains; after leaving, its port no longer accepts connections and it no longer answers discovery. Connecting again works as the first time.",
 ["histories","schedules","fault_sequences"],"all lifecycle histories with peers active at the same time, under any schedule, failing socket calls included",
 "One straight connect/leave sequence is tested on a quiet host; the shutdown races need specific interleavings.",
 [X+"CMVRxchangeService.cpp",X+"mvrxchange_server.cpp","mdns_cpp/src/mdns.cpp"],
 [("server thread stop and join",X+"mvrxchange_server.cpp"),("mDNS responder stop","mdns_cpp/src/mdns.cpp"),("refresh thread stop",X+"CMVRxchangeService.cpp")],
 ["thread and descriptor tables of the simulated host"])
p("C08","A requested file arrives byte-exact or is reported as failed",
 "When a station answers a file request with a buffer or a path, the requester's return callback gets exactly the bytes of that file, for any size above zero including larger than the preallocated packet buffer, and any segmentation; an empty file is delivered empty or reported as failed. If the file cannot be opened or completely read, or the transfer breaks off, the requester sees a failed answer or none: never truncated, padded or foreign bytes presented as success.",
 ["inputs","fault_sequences","schedules"],"all file sizes and contents, read errors and short reads at any offset, transfer broken at any byte",
 "The tests transfer one small intact file; read errors, truncated transfers and sizes around the buffer limits never occur.",
 [X+"mvrxchange_message.cpp",X+"mvrxchange_session.cpp",X+"mvrxchange_client.cpp","src/Wrapper/RawOSFileimpl.cpp"],
 [("file answer packing",X+"mvrxchange_message.cpp"),("length-checked receive",X+"mvrxchange_client.cpp")],
 ["return callback BufferToFile"])
p("C09","The service object can be used from several threads at once",
 "Concurrent query, list access, send and message-handler registration calls from several application threads, and list access, send and registration from within its callbacks, together with incoming messages and background refresh, never crash, deadlock, lose a wake-up or read torn state; each call behaves as if the calls had been made one after another in some order.",
 ["schedules"],"all interleavings of application threads with the network threads, at basic-block granularity",
 "Each test uses one thread and whatever interleaving the machine produced.",
 [X+"CMVRxchangeService.cpp"],[("result and group mutexes",X+"CMVRxchangeService.cpp"),("posted query task",X+"CMVRxchangeService.cpp")],
 ["IMVRxchangeService API results"])
G="src/Implementation/"
p("C10","An export that reports success left a complete, re-readable file",
 "If saving a GDTF or MVR document reports success, the file at the target path is, also after the process ends right afterwards, a complete archive that imports successfully and contains everything put into the document and every attached resource byte for byte. If any create, write, flush, close, disk-full or resource-read error made that untrue, the save reports failure.",
 ["fault_sequences","crash_points","inputs"],"all documents, every storage call failing or being cut short, process end at any point after the save returned",
 "Tests save to a healthy disk only; no storage call ever fails in them.",
 [G+"CGdtfFixture.cpp",G+"CMediaRessourceVectorImpl.cpp","src/SceneDataExchange.cpp","src/Wrapper/ZIPFileImpl.cpp","src/GDTFManager.cpp"],
 [("zip writer error handling","src/Wrapper/ZIPFileImpl.cpp"),("close result of the document",G+"CMediaRessourceVectorImpl.cpp")],
 ["Close result","bytes of the target file"])
p("C11","Saving and loading preserves the document across processes",
 "A document built through the API, saved, and loaded by a fresh process reads back through the API with the same objects, order, nesting, references, names, numbers (to the six decimals the format keeps), colours, matrices, UUIDs and attached files, and saving the loaded document again changes nothing. Every saved file is a well-formed archive. The result does not depend on directory order, clock, working or home directory, previously loaded documents, or how the operating system splits reads.",
 ["histories","inputs","configurations"],"all documents built through the API, all save / restart / load histories, all environments",
 "Tests check fixed documents once, mostly node by node and in one process.",
 ["src/SceneDataExchange.cpp",G+"CMediaRessourceVectorImpl.cpp",G+"CGdtfFixture.cpp",G+"CSceneObjImpl.cpp","src/XmlFileHelper.cpp","src/GDTFManager.cpp"],
 [("node printers and readers",G+"CGdtfFixture.cpp"),("scene writer and reader","src/SceneDataExchange.cpp")],
 ["document API getters"])
p("C12","Importing damaged or unreadable files is safe and never silently wrong",
 "Importing an MVR or GDTF file that is missing, truncated, torn, bit-flipped or whose reads fail or come up short terminates without crash, hang or memory corruption. Attached files it delivers are byte-exact, and a file that could not be read, or whose description could not be read completely, is reported as failed - for a GDTF file with a malformed description by a parsing error in the document's error list - rather than as an empty or partial document.",
 ["fault_sequences","crash_points","inputs"],"all truncation points, torn-write states left by a crash during export, bit flips, failing or short reads at any call",
 "Tests import intact files from a healthy disk.",
 ["src/Wrapper/ZIPFileImpl.cpp","src/SceneDataExchange.cpp",G+"CGdtfFixture.cpp",G+"CMediaRessourceVectorImpl.cpp","src/XmlFileHelper.cpp"],
 [("zip reading","src/Wrapper/ZIPFileImpl.cpp"),("import result",G+"CMediaRessourceVectorImpl.cpp")],
 ["OpenForRead / ReadFromFile results","document API getters"])
p("C13","Import writes and deletes only inside the library's own working folder",
 "Whatever names an imported archive's entries have, importing, using, and releasing the document creates, changes and removes files only below the library's own working folders (and the export target when exporting); files that existed elsewhere keep their content.",
 ["inputs","histories"],"all entry names including parent references, absolute paths, separators, very long and odd names, and all operation histories",
 "Test archives contain only plain names; nothing observes the rest of the file system.",
 ["src/SceneDataExchange.cpp","src/Wrapper/ZIPFileImpl.cpp","src/Wrapper/FilingWrapper.cpp",G+"CGdtfFixture.cpp"],
 [("extraction target path","src/SceneDataExchange.cpp")],["file system calls"])
p("C14","Independent documents do not disturb each other",
 "Several GDTF and MVR documents opened, read, written and released in any interleaving, in one thread or in several threads each using its own documents, behave exactly as if each had been used alone: content, extracted files, error lists and results are the same.",
 ["schedules","histories"],"all interleavings of independent sessions, sequentially mixed and multi-threaded",
 "Tests use one document at a time in one thread.",
 ["src/SceneDataExchange.cpp",G+"CGdtfFixture.cpp",G+"CMediaRessourceVectorImpl.cpp","src/GDTFManager.cpp"],
 [("working folder choice","src/SceneDataExchange.cpp"),("error container",G+"CGdtfFixture.cpp")],
 ["document API getters","extracted files"],[("working folders","where a session extracts to","src/SceneDataExchange.cpp")])
p("C15","An aborted import stops safely and promptly",
 "Aborting an import through the abort callback at any of its checks makes the import end as failed without a crash or a file left open, after no more than a bounded number of further callback checks; the session object can be released and a later import without abort of the same file succeeds completely.",
 ["crash_points","histories"],"every callback invocation as the abort point, followed by any further use",
 "No test aborts an import.",
 ["src/SceneDataExchange.cpp","src/GDTFManager.cpp"],[("abort checks","src/SceneDataExchange.cpp")],["import result"])
p("C16","Buffer-based import and export equal their file-based forms",
 "Reading a document from a memory buffer gives the same document as reading the same bytes from a file, and exporting to a buffer gives an archive with the same content as exporting to a file. A buffer handed out stays valid and unchanged until released, a too small or garbage buffer is reported as failure, and no history of open, close, export and release leads to invalid memory access.",
 ["histories","inputs"],"all documents, all histories of buffer and file operations on the same objects",
 "Tests cover one buffer round trip; mixed histories, repeated closes and garbage buffers are not run.",
 [G+"CGdtfFixture.cpp",G+"CMediaRessourceVectorImpl.cpp","src/Wrapper/ZIPFileImpl.cpp"],
 [("in-memory zip stream","src/Wrapper/ZIPFileImpl.cpp"),("buffer ownership",G+"CGdtfFixture.cpp")],["ToBuffer / FromBuffer results"])
p("C17","Every operation releases what it took",
 "After a document object is released, whatever succeeded or failed before, no file it opened is still open and nothing it extracted remains in its working folder; storage failures in between do not make it remove or overwrite the caller's own files.",
 ["fault_sequences","histories"],"all operations with any storage call failing",
 "Tests neither inject failures nor count open files.",
 ["src/SceneDataExchange.cpp",G+"CGdtfFixture.cpp",G+"CMediaRessourceVectorImpl.cpp","src/Wrapper/ZIPFileImpl.cpp","src/Wrapper/RawOSFileimpl.cpp"],
 [("close on all paths","src/Wrapper/ZIPFileImpl.cpp"),("working folder removal","src/SceneDataExchange.cpp")],["open file table","file tree"])
def na(id,title,st,files,mech):
    p(id,title,st,["inputs"],"all inputs","Tests sample a handful of values.",files,mech)
na("N01","Matrix, vector and rotation algebra is consistent","Composing, inverting, converting and normalising transformation matrices, vectors and angles agrees with linear algebra up to floating point error for every finite non-singular input.",["src/VWTransformMatrix.cpp","src/VWPoint3D.cpp","src/VWMathUtils.cpp"],[("matrix code","src/VWTransformMatrix.cpp")])
na("N02","DMX values scale exactly between resolutions","Converting a DMX value between resolutions, with or without byte mirroring, and printing and parsing it, keeps its value for every representable value.",["src/XmlFileHelper.cpp"],[("DMX value conversion","src/XmlFileHelper.cpp")])
na("N03","Text conversion of attribute values is lossless","Every value of every enumerated or numeric attribute type converts to text and back to itself, and unknown text is rejected.",["src/XmlFileHelper.cpp"],[("value converters","src/XmlFileHelper.cpp")])
na("N04","UUIDs convert to text and back","Every UUID converts to its canonical text form and back to itself, and malformed text is rejected.",["src/UUID.cpp","src/XmlFileHelper.cpp"],[("UUID conversion","src/UUID.cpp")])
na("N05","Colour space conversion is consistent","Converting colours between CIE xyY and RGB and back stays within rounding error for every colour in gamut.",["src/CieColor.cpp","src/RGBColor.cpp"],[("colour conversion","src/CieColor.cpp")])
na("N06","Document hashes identify the content","The content hash of a GDTF file equals SHA-256 over its bytes for every content.",["src/sha256/sha256.cpp","src/HashManager.cpp"],[("sha256","src/sha256/sha256.cpp")])
na("N07","DMX footprint and channel linking are computed correctly","The DMX footprint, breaks, flattened channels and resolved references reported for a mode follow from its geometry tree and channels for every valid description.",[G+"CGdtfFixture.cpp",G+"CGdtfDmxMode.cpp"],[("reference resolution",G+"CGdtfFixture.cpp")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
