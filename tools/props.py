#!/usr/bin/env python3
"""Writes properties.jsonl (the list is easier to edit here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "FML32 buffers behave as an ordered multimap of typed occurrences",
  "After any sequence of FML32 calls (Fadd, Fchg, Fdel, Fdelall, Fcpy, Finit, Frealloc, index calls) every reader (Fnext, Fget, Ffind, Ffindlast, Ffindocc, Fgetalloc, Fpres, Foccur, Flen) reports exactly the occurrences, values and lengths an ordered map from field id to a list of values would hold. Occurrences of a field keep their order, replaced or deleted ones shift later ones by exactly one, Fchg past the end fills the gap with default values, and traversal visits fields in type-then-number order. Buffers with equal content use equal space regardless of how they were built.",
  ["inputs", "histories"], "every sequence of operations, over all eight field types, field numbers, value lengths and nesting depths",
  "tests/fml32.cpp runs short fixed sequences, almost all over a single type in one buffer; interactions between types (the per-type offsets), nested buffers and deletions in the middle are not exercised.",
  ["src/fbfr32.h", "src/fml32.cpp"],
  [("per-type offsets kept in step by shift()", "src/fbfr32.h"), ("where()/wheren() search, chg()/erase() data movement", "src/fbfr32.h")],
  ["the FML32 C API"], [("offsets_", "start of each type's fields", "src/fbfr32.h")])

p("C02", "FML32 operations respect capacity and fail without side effects",
  "For every buffer size an FML32 call either succeeds completely or returns its documented error and leaves content and space accounting unchanged, and it never reads or writes outside the memory it was given. Fused plus Funused always equals Fsizeof, FNOSPACE is reported only when the room really is missing, and a buffer of Fneeded32(F,V) bytes holds any F values of up to V bytes. NULL, misaligned or too small buffers, invalid field ids or types and absent occurrences are reported with FNOTFLD/FALIGNERR, FNOSPACE, FBADFLD, FTYPERR, FEBADOP, FEINVAL or FNOTPRES.",
  ["inputs", "histories"], "every capacity, operation sequence and invalid argument",
  "The tests use large buffers and check a handful of FNOSPACE cases; none compares the buffer before and after a failed call, and none runs under a memory checker.",
  ["src/fbfr32.h", "src/fml32.cpp"], [("need/len_/size_ check before moving data", "src/fbfr32.h"), ("FBFR32_CHECK, FLDID32_CHECK", "src/fml32.cpp")],
  ["the FML32 C API, AddressSanitizer red zones at both ends of the buffer"])

p("C03", "FML32 type conversions preserve values",
  "Ftypcvt32 and the converting calls (CFadd, CFchg, CFget, CFfind, CFfindocc, Fgets, Ffinds) yield, for every pair of types, the value C's own conversion gives (integers and floats by numeric conversion, text by decimal parsing and printing, char to text as one character), with the exact length of the result. The converting calls store or return exactly the value Ftypcvt32 gives and treat missing fields and short output buffers as the plain calls do.",
  ["inputs"], "all 49 pairs of source and target type and every value representable in the target",
  "tests/fml32.cpp converts six values, all between small numbers; text/carray lengths, negative and 64 bit values and the converting search are not covered.",
  ["src/fml32.cpp"], [("TYPCVT/TYPCVTS macros", "src/fml32.cpp")], ["Ftypcvt32, CF* calls"])

p("C04", "FML32 set operations match their definitions",
  "Fupdate, Fjoin, Fojoin, Fconcat, Fproj, Fprojcpy, Fdelete and Fcpy give, for every pair of buffers and every field list, exactly the content their definition prescribes occurrence by occurrence. The source buffer and the capacity of the target never change, every call terminates, and when the target is too small they return FNOSPACE and leave a well formed buffer.",
  ["inputs"], "all pairs of buffers over mixed types with any numbers of occurrences, all field lists, all target capacities",
  "One hand-written example per operation, all on three short fields with at most one surplus occurrence.",
  ["src/fbfr32.h"], [("iterate() with chg()/del()/delall()", "src/fbfr32.h")], ["the FML32 C API"])

p("C05", "FML32 buffers survive binary and textual files unchanged",
  "A buffer written with Fwrite32 and read with Fread32, or printed with Ffprint32 and read with Fextread32, has the same fields, occurrences and values, including arbitrary bytes in strings and carrays, nested buffers and several records per file. A truncated, damaged or too large record is reported as an error without a crash and leaves the target a valid buffer. The printed form contains only printable characters, tabs and newlines.",
  ["inputs"], "every buffer content (doubles with up to six decimals), every truncation and random damage of the file",
  "One round trip of seven small values each way; bytes above 0x7f, backslashes, NUL in carrays, short files and nested values with binary content are untested.",
  ["src/fbfr32.h", "src/extreader.h", "src/basic_parser.h"], [("write/read", "src/fbfr32.h"), ("fprint/print_bytes vs extreader", "src/fbfr32.h, src/extreader.h")],
  ["Fwrite32/Fread32/Ffprint32/Fextread32 on files"])

p("C06", "Boolean expressions evaluate by the documented grammar",
  "Every expression of the Fboolco32 grammar evaluates (Fboolev32, Ffloatev32) to the value given by its operators' precedence, left associativity and operand types on the given buffer, with absent fields, field occurrences, regular expressions and string comparison handled as documented. Fboolpr32 prints a form that compiles again to an equivalent expression. Malformed expressions are rejected with FSYNTAX/FBADNAME, and no expression or buffer crashes the process or reads outside its memory.",
  ["programs", "inputs"], "all expressions up to a depth bound, all buffers, random damage of the text",
  "tests/expr.cpp holds about a hundred fixed expressions of one or two operators, most on constants.",
  ["src/expr.cpp"], [("recursive descent parser building a flat tree", "src/expr.cpp"), ("eval over the tree", "src/expr.cpp")], ["Fboolco32, Fboolev32, Ffloatev32, Fboolpr32"])

p("C07", "Field names and ids agree across tables, threads and generated headers",
  "For every field of the tables named by FLDTBLDIR32/FIELDTBLS32, Fldid32 of its name gives the id Fmkfldid32 makes of its type and base plus number, Fname32 of that id gives the name back, and unknown names and ids fail with FBADNAME/FBADFLD, also after unloading and from any number of threads at once. mkfldhdr32 writes headers that define exactly the same ids under the same names, and a malformed table is rejected with its line.",
  ["inputs", "configurations", "schedules"], "all syntactically valid tables (bases, types, comments, several files and directories), all interleavings of first use",
  "The tests look up three names of one table from a single thread; generated headers are never compared with the run time ids.",
  ["src/fbfr32fld.h", "src/fieldtbl32.h", "src/mkfldhdr32.cpp", "src/fml32.cpp"], [("shared mutex and lazy load", "src/fbfr32fld.h"), ("field_table_parser", "src/fieldtbl32.h")],
  ["Fldid32/Fname32, mkfldhdr32 output"])

p("C08", "Typed buffers keep type, size and content",
  "tpalloc gives a buffer of at least the asked size that tptypes reports with its type and subtype; tprealloc in any direction keeps the type, subtype and the common prefix of the content; tpexport followed by tpimport, binary or string form, reproduces type, subtype and content for every buffer and grows the target as needed. Unknown types, NULL or foreign pointers, too small output areas and damaged imports fail with the documented error and leave the given buffers usable.",
  ["inputs", "histories"], "every type, size and content; every sequence of allocations, reallocations, exports and imports; damaged import data",
  "A few allocations and eight export/import calls on fixed buffers.",
  ["src/mem.cpp", "src/base64.cpp", "src/fbfr32.h"], [("tptype table and tpmem header", "src/mem.cpp"), ("base64 encode/decode", "src/base64.cpp")], ["tpalloc/tprealloc/tptypes/tpfree/tpexport/tpimport"])

p("C09", "Messages cross queues exactly once and intact",
  "Every message accepted by a send on a queue is received exactly once by exactly one receiver, with identical bytes and size, in the order sent by its sender among messages of equal priority, whatever its size and however many processes send and receive. A send that fails and a send or receive that would block have no effect, a failing receive is reported, and no temporary file outlives the message that used it.",
  ["schedules", "inputs", "fault_sequences"], "all message sizes across the in-queue limit, all interleavings of several senders and receivers, full queues, failing system calls",
  "tests/ipcq.cpp sends a few messages in a single process.",
  ["src/ipc.cpp", "src/ipc.h"], [("queue send/receive with a file for large messages", "src/ipc.cpp")], ["fux::ipc::qsend/qrecv at the process boundary, the temporary directory"])

p("C10", "The service registry lists exactly the advertised services",
  "At every moment a service is found exactly on the servers that advertised and have not unadvertised it, each at most once, and a request goes to one of their queues, each advertising queue getting its turn. Tables reject what exceeds their configured capacity without damage to existing entries, entries of a removed server or client disappear completely, and slots of clients can be used again. This holds for any interleaving of processes advertising, unadvertising, looking up, attaching and detaching.",
  ["schedules", "histories", "configurations"], "all interleavings of several processes over a shared registry, all table capacities",
  "tests/mib.cpp makes two entries in a private registry from a single process.",
  ["src/mib.cpp", "src/mib.h", "src/svcrepo.h"], [("shared memory tables under a semaphore", "src/mib.cpp"), ("revision-checked service cache", "src/svcrepo.h")], ["mib advertise/unadvertise/find and service_repository, tpadvertise/tpunadvertise, tpcall"])

p("C11", "Each request is served once and its reply reaches its caller",
  "Every request sent with tpcall or tpacall to an advertised service is executed exactly once by one server offering it, the service sees the sent type, data and length, and the reply that the caller receives for a descriptor is the one produced for that request, with identical type, data and length. This holds for all data sizes and types, any number of concurrent clients, servers sharing a queue, multithreaded servers and tpforward chains, and for TPNOREPLY requests no reply is ever delivered.",
  ["schedules", "inputs", "histories"], "all interleavings of clients and servers, all payloads, all chains of forwards",
  "The install tests run one client and one server with one outstanding call and a constant short string.",
  ["src/client.cpp", "src/server.cpp", "src/ipc.cpp", "src/mem.cpp"], [("call descriptor table and correlation", "src/client.cpp"), ("dispatch, tpreturn, tpforward", "src/server.cpp")], ["tpcall/tpacall/tpgetrply on the client, service entry on the server"])

p("C12", "The caller learns exactly the outcome the service returned",
  "TPSUCCESS gives success, TPFAIL gives TPESVCFAIL with the data the service returned, TPEXIT additionally ends the server, an invalid return or a missing tpreturn gives TPESVCERR, and tpurcode is the service's rcode for that call. Calls to services nobody offers give TPENOENT, invalid arguments, wrong buffers and buffer type changes under TPNOCHANGE are refused with their documented errors, and none of these disturbs other calls of the same client.",
  ["inputs", "histories"], "all sequences of calls with all combinations of outcome, rcode, data and flags",
  "The tests check single outcomes, one call per client process.",
  ["src/server.cpp", "src/client.cpp"], [("tpreturn encoding in the reply header", "src/server.cpp"), ("reply decoding", "src/client.cpp")], ["return value, tperrno and tpurcode of tpcall/tpgetrply"])

p("C13", "Call descriptors and timeouts never lose or misdirect replies",
  "Descriptors are unique among outstanding calls and limited in number with TPELIMIT; tpgetrply for one descriptor or TPGETANY returns every outstanding reply exactly once in whatever order they arrive; a cancelled, finished or unknown descriptor gives TPEBADDESC. A call whose service takes longer than the block time fails with TPETIME within a bounded time and no sooner, and its late reply is never delivered to any other call.",
  ["histories", "schedules"], "all interleavings of sends, gets, cancels and late replies of one client",
  "Two outstanding calls at most and one timeout in the tests.",
  ["src/client.cpp", "src/BBL.cpp", "src/ipc.cpp"], [("descriptor set and buffered replies", "src/client.cpp"), ("unblock messages sent by the watchdog", "src/BBL.cpp")], ["tpacall/tpgetrply/tpcancel/tpsblktime results"])

p("C14", "Global transactions are atomic",
  "For every global transaction, all resource managers that took part end with the same outcome: every branch is committed only after every branch was prepared, and if any branch fails to start, work or prepare, or the originator aborts, every branch is rolled back. tx_commit reports commit only if all branches committed and reports rollback (or a mixed or hazard outcome) otherwise.",
  ["fault_sequences", "histories", "schedules"], "all combinations of participating groups, XA return codes at every XA call, aborts and service failures",
  "The tests use the empty resource manager with a single group and no failure.",
  ["src/tx.cpp", "src/trx.cpp", "src/trx.h", "src/TMS.cpp"], [("prepare/commit/rollback commands to TMS", "src/tx.cpp, src/trx.cpp"), ("transaction table", "src/trx.h")], ["log of xa_* calls at a resource manager stand-in, return of tx_commit"])

p("C15", "Transaction demarcation follows the TX state machine",
  "For every sequence of tx_* and tp* transaction calls (begin, commit, rollback, suspend, resume, open, close, the characteristics) in clients and in services, in transactions of their own and of their callers, each call returns the code the TX specification prescribes for the current state, tx_info reports that state and the characteristics set, in chained mode a new transaction starts after each end, and a transaction in which a call failed can only be rolled back. A service works in the transaction of its caller, which only the originator ends, and a transaction a service leaves open is rolled back. A process can run any number of transactions one after another, every transaction gets an id no other transaction has, also across processes starting transactions at the same time, and a full transaction table is reported as an error until a transaction ends.",
  ["histories", "schedules"], "all call sequences of the TX interface, all concurrent starts and ends",
  "install-tests/txnull runs about ten calls in a fixed order; tests/trx.cpp fills a table once.",
  ["src/tx.cpp", "src/trx.h", "src/trx.cpp"], [("tx state and modes per thread", "src/tx.cpp"), ("transaction table in shared memory", "src/trx.h")], ["tx_* and tp* return codes, tx_info"])

p("C16", "A domain starts, cleans up after dead processes and stops completely",
  "After tmboot every configured server runs and serves; a server or client that dies is removed, its queue is deleted, its services are no longer found and callers are not sent to it; tmshutdown stops every server and leaves no queue, semaphore, shared memory segment or process of the domain, and no temporary file of a message whose sender and receiver were not killed. Starting and stopping can be repeated any number of times.",
  ["crash_points", "histories", "configurations"], "kills of any client or server at any moment, any number of start and stop cycles, any configuration of groups and servers",
  "Single start and stop cycles; one test kills a server once.",
  ["src/tmboot.cpp", "src/tmshutdown.cpp", "src/BBL.cpp", "src/mib.cpp", "src/tmipcrm.cpp"], [("watchdog for dead processes", "src/BBL.cpp"), ("collect()/remove of entries", "src/mib.cpp")], ["processes, ipcs, MIB content, calls"])

p("C17", "Configurations load exactly or not at all",
  "For every valid configuration text tmloadcf followed by tmunloadcf gives back an equivalent configuration, and the running domain has exactly its machines, groups, servers and parameters; comments, spacing, quoting and defaults do not matter beyond their documented meaning. An invalid text is refused with its position and a nonzero status and leaves an existing configuration file untouched, as does a syntax check with -n.",
  ["inputs", "configurations"], "all texts of the configuration grammar and random damage of them",
  "One fixed configuration per install test, all with the same layout.",
  ["src/ubbreader.h", "src/ubb.h", "src/ubb2mib.cpp", "src/tmloadcf.cpp", "src/tmunloadcf.cpp"], [("ubbreader grammar", "src/ubbreader.h"), ("ubb2mib translation", "src/ubb2mib.cpp")], ["tmloadcf/tmunloadcf output and exit status, MIB content"])

p("C18", "Administrative queries report the true state",
  "A GET of T_DOMAIN, T_MACHINE, T_GROUP, T_SERVER, T_SERVICE, T_SVCGRP or T_QUEUE, by tpadmcall or as a request to the .TMIB service, answers with TA_OCCURS occurrences of every attribute: exactly one per existing object, with its true attributes and state (servers that run, services they offer at the moment, queues and the number of servers on them, limits and parameters of the configuration), also right after servers were started, stopped or killed and while services are advertised and unadvertised. Requests with a missing or unknown class or operation, without data or with another type of buffer are refused with an error, and the administrative service stays available.",
  ["histories", "inputs"], "every reachable state of the tables and every request",
  "Not covered: the tests make a single T_SERVER request and look at few fields.",
  ["src/tpadmcall.cpp", "src/BBL.cpp", "src/mib.cpp"], [("get of each class over the shared tables", "src/tpadmcall.cpp")], ["FML32 answers of tpadmcall and of .TMIB calls"])

p("C19", "Concurrent use from several threads is free of data races",
  "Threads of one process may use the library at the same time (FML32 buffers of their own, field tables, typed buffers, calls, service dispatch in multithreaded servers, userlog): no data race occurs, each thread sees its own error codes, tpurcode and call descriptors, and every call returns what it would return alone.",
  ["schedules"], "all interleavings of threads over the public interface",
  "No existing test uses more than one thread in a client, and none runs under a race detector.",
  ["src/fml32.cpp", "src/fbfr32fld.h", "src/xatmi.cpp", "src/client.cpp", "src/server.cpp", "src/mem.cpp", "src/userlog.cpp"], [("thread_local state", "src/fml32.cpp, src/xatmi.cpp, src/client.cpp"), ("mutexes", "src/fbfr32fld.h, src/server.cpp")], ["ThreadSanitizer, results per thread"])

p("C20", "Log lines are complete, whole and attributed",
  "Every userlog call appends exactly one whole line to the day's log file with the time, the process that wrote it and the formatted text, in each writer's order, whatever the length of the message, the number of concurrent writers and the log settings. A log that cannot be opened or written never harms the caller.",
  ["inputs", "schedules", "fault_sequences"], "all message lengths and contents, any number of processes and threads writing at once, unwritable logs",
  "tests/userlog.cpp writes three short lines and looks at none.",
  ["src/userlog.cpp"], [("single append write", "src/userlog.cpp")], ["the log file"])

p("C21", "View and build tools produce sources that mean what was declared",
  "For every valid view file viewc32 writes a header whose C structure has the declared members, types, counts and sizes, and rejects invalid views with a nonzero status; buildserver and buildtms produce programs that advertise exactly the named services with their functions and link the named resource manager, and buildclient a program linked with the library.",
  ["inputs", "programs"], "all valid view descriptions, all lists of services and options",
  "Three valid and three invalid view files and one server layout in the tests; the produced header is never compiled.",
  ["src/view32.h", "src/viewc32.cpp", "src/buildserver.cpp", "src/buildclient.cpp", "src/buildtms.cpp", "src/build.h"], [("view parser and header writer", "src/view32.h, src/viewc32.cpp"), ("generated main", "src/buildserver.cpp")], ["compiled output of the tools"])

d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
