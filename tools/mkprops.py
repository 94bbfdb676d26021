import json
B='lib/binary/reflector.h'; J='lib/json/reflector.h'; E='lib/json/errorhandling.h'
BG='generator/binaryserializationcodegenerator.cpp'; JG='generator/jsonserializationcodegenerator.cpp'
BS='lib/binary/serializable.h'; JS='lib/json/serializable.h'
BC='lib/binary/reflector-chronoutilities.h'; JC='lib/json/reflector-chronoutilities.h'
BH='lib/binary/reflector-boosthana.h'; JH='lib/json/reflector-boosthana.h'
def m(n,w): return {"name":n,"where":w}
P=[]
def prop(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    if obs: a["observe_at"]=[obs]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
prop("C01","An acknowledged binary save survives every crash and restart unchanged",
 "Any object built from the supported types (numbers, strings, enumerations, sequences, sets, maps, pairs, optionals, owning and shared pointers, variants, dates, nested, derived and versioned records, reflected by generated code, Boost.Hana or by hand) that was saved in binary form and whose bytes became durable is restored equal to what was saved after any crash and restart. A crash in the middle of a later save leaves the old or the new object to be restored, never a third one. A restore consumes exactly the bytes its save produced, however storage splits reads and writes.",
 ["crash_points","histories","inputs"],"all histories of saves, syncs, crashes and restores over all supported object shapes, all crash points, all ways of splitting the I/O",
 "Tests save a few fixed objects into one in-memory stream and read them back at once; they place no crash, no restart, no split I/O and hardly any combination of types.",
 [B,BS,BC,BH,BG,'generator/serializationcodegenerator.cpp'],
 [m("type-directed binary writer",B+": BinarySerializer::write overloads"),m("type-directed binary reader",B+": BinaryDeserializer::read overloads"),m("generated per-record code",BG+": generate()"),m("Hana reflection",BH)],
 [{"name":"durable bytes","meaning":"content of the simulated disk that survives a crash","where":"harness disk; written through std::ostream"}],
 "value of the restored object and the stream position after the restore")
prop("C02","An acknowledged JSON save survives every crash and restart unchanged",
 "Any object built from the supported types with finite numbers that was saved as JSON text and whose bytes became durable is restored equal to what was saved, with no error reported, after any crash and restart; every serialised member appears in the text exactly once, and text values (member names, map keys, strings with control characters, quotes, zero bytes or any other bytes) and numbers up to full precision survive. A crash in the middle of a later save leaves the old or the new object to be restored, never a third one.",
 ["crash_points","histories","inputs"],"all histories of saves, syncs, crashes and restores over all supported object shapes and all crash points",
 "Tests compare a few fixed objects with fixed texts and never store, tear or reload them; the space of nested types, text contents and crash points is unbounded.",
 [J,JS,JC,JH,JG],[m("JSON push",J+": push overloads"),m("JSON pull",J+": pull overloads"),m("text conversion",J+": serializeJsonDocToString, parseJsonDocFromString"),m("generated per-record code",JG+": generate()")],
 None,"value and error list returned after the restart; the stored text")
prop("C03","A torn or failing binary read is never taken for a restored object",
 "When the input of a binary restore ends early or its device reports an error at any byte of the record, and the stream is set to throw on failure, the restore ends in an exception and never returns as if the object had been restored. Afterwards the partially filled target is still a valid object, and a retry on intact input restores exactly what was saved.",
 ["fault_sequences","crash_points","inputs"],"every cut position and every failing read of every record of all supported shapes, with every split of the reads",
 "Tests only read complete in-memory streams; whether each of the unbounded number of cut positions is noticed depends on every read path.",
 [B,BS,BC,BG],[m("stream-driven reader",B+": BinaryDeserializer::read overloads"),m("restore entry points",BS+": restoreFromBinary, fromBinary")],None,"exception or return of the restore call; validity and value of the target after retry")
prop("C04","Damaged binary input yields the defined value or an exception, nothing else",
 "Binary input damaged in any way (flipped, overwritten, inserted, removed or swapped bytes) is restored to exactly the value the wire format assigns to those bytes, or the restore throws an exception (derived from the standard one, or the one refusing a record's version); an unknown variant alternative, a reference to a shared object that was not sent or has another type, and a size that cannot be honoured are refused that way. The restore never touches memory it does not own, never leaks, and ends after an amount of work bounded by the input and the memory granted.",
 ["fault_sequences","inputs"],"all damages of encodings of all supported object shapes",
 "Tests cover two hand-made corrupt inputs; damage multiplies every byte position of every shape by every possible replacement.",
 [B,BG,BC],[m("validation while reading",B+": shared pointer mode/ID, variant index, sizes"),m("version check",'lib/versioning.h: assertVersion')],None,"outcome of the restore compared with an independent decoder; sanitizer reports; steps executed")
prop("C05","Damaged or mismatching JSON is reported precisely and applied only where it fits",
 "Restoring from damaged JSON throws the parser's result if the text is not JSON; otherwise each value that does not fit its target (wrong type, wrong array size, duplicate in a set, unusable variant, unconvertible or out-of-range value) adds exactly one error, in the order in which members are declared and elements appear, with its kind, expected and present type, record, member and array index. A value that does not fit leaves what the target held before and everything that fits is restored, identically whether or not an error object is supplied, and without touching foreign memory.",
 ["fault_sequences","inputs"],"all damages (byte level and value level) of the JSON of all supported object shapes",
 "Tests check a handful of hand-written mismatches on a few types; reporting and context bookkeeping must be right at every nesting of every type.",
 [J,E,JC,JG,JH],[m("checks while pulling",J+": pull overloads"),m("error reporting and context",E+": report* functions, currentRecord/currentMember/currentIndex")],None,"error list, restored value, thrown parse result")
prop("C06","A failing output device is never hidden by a binary save",
 "When the device behind the output stream refuses, shortens or fails a write at any byte (full disk, I/O error, short write), the caller learns of it: the stream is left in a failed state, or throws if it is set to throw. What the device has accepted is always an exact prefix of the correct encoding, and saving again to a working device afterwards produces the complete correct encoding.",
 ["fault_sequences","inputs"],"every position and kind of write failure during saves of all supported shapes, for throwing and non-throwing streams and every buffer size",
 "Tests write to memory streams that cannot fail; failure positions times shapes times buffering is unbounded.",
 [B,BS,BC,BG],[m("stream-driven writer",B+": BinarySerializer::write overloads"),m("save entry point",BS+": toBinary")],None,"stream state or exception after the save; bytes accepted by the device")
prop("C07","Binary messages interoperate with any peer over any transport fragmentation",
 "Messages of any supported types sent back to back over one connection are received in order, each equal to what was sent, however the transport fragments, delays or coalesces the bytes, and the reader never waits for bytes beyond the current message. The bytes are the documented platform-independent format in both directions, so a peer with an independent implementation of the format understands every message and is understood; after a dropped connection every completely received message has been delivered and no partial one.",
 ["schedules","fault_sequences","histories"],"all message sequences, fragmentations, delays and connection drops",
 "Tests use one in-memory stream with all bytes available and check the bytes of one fixed object.",
 [B,BS,BC,BG],[m("wire format",B+": read/write overloads"),m("restore entry points",BS)],None,"messages delivered to each peer; bytes on the wire; what the reader has requested from the transport")
prop("C08","Shared ownership is saved and restored exactly, for every memory layout",
 "After a save and restore within one binary session two shared pointers refer to the same object if and only if they did before, each shared object being written once and restored once with its value, wherever the allocator places the objects (including addresses in the upper range of the address space), in whatever order they are met, in cycles, across several writes of the session, and where the data of several sessions is read one after another. References never resolve to an object of another identity or of another type, and nothing leaks.",
 ["inputs","histories","configurations"],"all graphs of shared objects, all address assignments, all orders of writes in a session",
 "Tests check one pointer stored twice at whatever addresses the host's allocator happened to choose.",
 [B],[m("identity of shared objects",B+": read/write for std::shared_ptr, m_pointer")],[{"name":"session table","meaning":"shared objects already met in this session","where":B+": m_pointer"}],"aliasing structure of the restored graph")
prop("C09","Peers of different record versions interoperate throughout a rolling upgrade",
 "A record written at any version its reader supports is restored with exactly the members that version has, in base and nested records as well; members outside that version keep what they held, the version actually used is returned, and writing at a version that was not given uses the record's own. A record of a newer version than the reader supports is refused with an exception carrying the present version, the supported version and the record's name, before any member guarded by that version is changed.",
 ["histories","configurations","schedules"],"all mixes of reader and writer versions over all upgrade, downgrade and restart orders and all record shapes with versioned members",
 "Tests check one record at two versions; upgrades multiply versions, nesting and inheritance with histories of stored data.",
 ['lib/versioning.h',B,BS,BG],[m("version negotiation",'lib/versioning.h: Versioning'),m("version-conditional members",BG+": MemberTracking")],None,"restored members, returned version, exception contents")
prop("C10","Concurrent (de)serialisations do not influence each other under any interleaving",
 "Threads that save, restore, push to and pull from JSON at the same time, each with its own streams, documents and error objects, on distinct objects or reading the same constant object, obtain exactly what each would obtain alone, under every interleaving of their steps and whatever faults the others meet.",
 ["schedules","fault_sequences"],"all interleavings of sessions at the granularity of basic blocks, with faults in some of them",
 "Tests are single-threaded; interference needs a particular interleaving of two sessions.",
 [B,J,E,BG,JG],[m("per-session state",B+": BinarySerializer, BinaryDeserializer members"),m("per-call context",E+": JsonDeserializationErrors members")],None,"result of every session compared with its solo run")
prop("C11","A JSON document is a snapshot independent of the objects it was made from",
 "A document obtained from an object keeps the content the object had at that moment (including strings, text views, C strings, map keys and every nested value), whatever happens to the object and its memory afterwards: modification, destruction, reuse of the memory by others, or serialising further objects into other documents. Likewise an object restored from a document or text does not depend on that document or text any more.",
 ["histories","configurations"],"all histories of snapshots, modifications, destructions and memory reuse",
 "Tests serialise a document at once while the source is alive and unchanged.",
 [J,JS,JG],[m("copying into the document's allocator",J+": push overloads")],None,"document content at any later time; sanitizer reports")
prop("C12","Running out of memory at any allocation is survived without damage or leak",
 "When any single C++ memory allocation (operator new) or all of them from some point on fail during a binary save or restore or a JSON save or restore, the failure reaches the caller as the allocator's exception, no memory leaks and no object is damaged: sources are unchanged, targets are valid objects. The same operation, with the same error object, succeeds with the right result once memory is available again.",
 ["fault_sequences","inputs"],"every allocation of every operation on all supported shapes failing, once or persistently",
 "Tests never make an allocation fail.",
 [B,J,E,JG],[m("exception safety of readers and writers",B+", "+J),m("error context restoration",E+" and generated code")],None,"exception reaching the caller, allocator balance, value of source, target after retry")
prop("C13","An error object stays accurate over any history of uses, fatal errors included",
 "Using one error object for any sequence of restores, each of which may succeed, report errors or be aborted by an error configured as fatal, gives for every restore the same errors with the same context (record, member, index) as a fresh error object would. An error is fatal exactly if its kind is configured as fatal; it is then thrown as the error that has just been recorded last.",
 ["histories","fault_sequences"],"all sequences of restores of matching, mismatching and damaged documents under all settings of which errors are fatal",
 "Tests use each error object for one or two fixed documents.",
 [E,J,JG,JC],[m("fatal errors",E+": throwMaybe, ThrowOn"),m("context save/restore",J+": pull of arrays and members; generated pull()")],[{"name":"current record/member/index","meaning":"context attached to errors","where":E}],"error list per restore, thrown error")
prop("C14","Restoring over a used object gives the same result as restoring into a fresh one",
 "A binary restore into an object that has held anything before (an earlier state, the remains of a failed restore) yields the same value as a restore into a new object, apart from members the stored version does not have. The same holds for restoring each value present in a JSON document into an existing object: sequences, sets and maps contain the stored elements only; what lies within containers, optionals and pointers is replaced as a whole.",
 ["histories","inputs"],"all histories of restores, failed restores and modifications of one object",
 "Tests restore into fresh objects only.",
 [B,J,BS],[m("replacing container content",B+": read of containers; "+J+": pull of containers")],None,"value of the restored object")
prop("C15","The generator reports success only for a complete output under any I/O fault",
 "If reading an input, or opening, writing, flushing or closing the output (a file or standard output) fails, is interrupted or transfers fewer bytes than asked for at any point, the code generator either recovers and leaves exactly the output of an undisturbed run or exits with a non-zero status and a message. The same goes for inputs with errors and for generators it does not know. It never exits with status zero leaving a missing, truncated or altered output, never hangs, and never crashes.",
 ["fault_sequences","crash_points"],"every system call of a generator run failing, shortened or interrupted, singly and in combination",
 "Tests run the generator on healthy files only.",
 ['generator/main.cpp','generator/codefactory.cpp','generator/frontendaction.cpp','generator/consumer.cpp',BG,JG],[m("output stream and its error handling",'generator/main.cpp'),m("clang invocation result",'generator/codefactory.cpp: run()')],None,"exit status, standard error, bytes of the output")
prop("C16","The generator's output depends on nothing but its input",
 "For the same input and options every successful run of the code generator produces byte-identical output, whatever memory layout the run gets, however the operating system splits its reads and writes, whatever the output file held before and however often or in whatever working directory, environment or file timestamps it is run. Selecting generators one at a time or together produces the same code for each of them.",
 ["configurations","schedules","histories"],"all memory layouts, I/O splits, earlier outputs, environments and repetition histories",
 "Tests run the generator once per input under one environment and compare with one expected output.",
 ['generator/serializationcodegenerator.cpp','generator/consumer.cpp','generator/visitor.cpp',BG,JG],[m("collection order of declarations",'generator/serializationcodegenerator.cpp: addDeclaration, findRelevantClasses'),m("emission",BG+", "+JG)],None,"bytes of the output across runs")
prop("C17","The generator covers exactly the eligible members of every declared class",
 "For every header of class declarations the generator accepts, and however it evolves from release to release (classes, bases, members and access to private members added or removed, members reordered or re-declared, versions raised with members added as of or removed after a version), the programs built from the generated code compile, and what one release's program saves is restored by every other's: every non-static, non-constant member that is public or opened to the library, of the class and of its public bases in the same header which the same generator covers, is saved and restored, within the range of versions it is marked with; any other member keeps its default. A class not declared serializable gets no code, so that may be written by hand. JSON text has exactly these members, each once, constant ones included when saving; binary data of a version the reader does not know is refused. It makes no difference how often, under which I/O splits, memory layouts or after which failed runs the generator was run, or whether other declarations are in error in error-resilient mode.",
 ["programs","histories"],"all sets of class declarations and all histories of releases exchanging data",
 "Tests compare the output for two headers with fixed texts and never let two releases of a header exchange data.",
 ['generator/serializationcodegenerator.cpp','generator/serializationcodegenerator.h','generator/codegenerator.cpp','generator/clangversionabstraction.h',BG,JG],[m("member selection",BG+" and "+JG+": generate()"),m("base selection",'generator/serializationcodegenerator.cpp: findRelevantBaseClasses'),m("version markers",BG+": MemberTracking"),m("access by the library",BG+" and "+JG+": writePrivateMembers, friend declarations")],None,"what programs built from generated code save and restore")
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
