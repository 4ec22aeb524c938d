import json
def P(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if obs: a['observe_at']=obs
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a)
L=[]
core=['include/strigi/streambase.h','include/strigi/bufferedstream.h','include/strigi/streambuffer.h','include/strigi/stringstream.h','lib/fileinputstream.cpp','lib/mmapfileinputstream.cpp','lib/skippingfileinputstream.cpp','lib/subinputstream.cpp','lib/dataeventinputstream.cpp']
L.append(P('C01','Streams deliver exactly their data, in order','Whatever sequence of reads, skips and resets a program performs on a stream (in memory, file, memory-mapped, buffered, sub-stream, decoding stream), every successful read hands out precisely the items of the underlying content that start at the position the stream reported before the read, and moves the position by the number returned. The memory handed out is readable for the whole count, and data is delivered as long as some is left.',['histories','inputs'],'every content, every interleaving of read/skip/reset with every minimum, maximum and target, every way the underlying source can chop its data','the tests read a few fixed files with a few request sizes; the buffer has infinitely many internal states (offset, fill level, end flag) reached by histories the tests do not run',core,[('buffered read and its refill loop','include/strigi/bufferedstream.h'),('sliding buffer: making room, consuming','include/strigi/streambuffer.h'),('in-memory stream','include/strigi/stringstream.h')],obs=['read(), position(), the memory returned']))
L.append(P('C02','Read counts respect limits; end of stream is reported consistently','A read asking for at least min (>=1) and at most max items (no limit when max < min) returns -1, -2 or a positive count that never exceeds the limit and is below min only when the end has been reached. Once the end is reached the status says so, the size is known and equals the position, and every further read returns -1 without moving; while the stream is healthy the position lies inside the stream and a known size is the real size.',['histories','inputs'],'every min/max combination on every stream state','tests use a handful of request sizes; the boundary cases (max < min, requests beyond the end, exact ends, the chunking of the source) form an unbounded space',core,[('read limits and end detection','include/strigi/bufferedstream.h'),('limits on wrapped input','lib/subinputstream.cpp')],obs=['return value of read(), status(), size(), position()']))
L.append(P('C03','Errors are reported and never turn into data or end-of-stream','When the underlying source fails, or the encoded data is damaged, the stream enters the error state: reads return -2, the status is Error with a message, and it stays so until a reset succeeds. A stream whose source does not fail and whose data is intact never reports an error, and no read returns data together with the error state.',['fault_sequences','histories','inputs'],'a failure injected at every position of the source, at every moment of every call history','the tests contain no failing source',core+['lib/gzipinputstream.cpp','lib/bz2inputstream.cpp','lib/lzmainputstream.cpp','lib/encodinginputstream.cpp','lib/base64inputstream.cpp'],[('error state of buffered streams','include/strigi/bufferedstream.h'),('error transfer from wrapped input','lib/subinputstream.cpp')],obs=['status(), error(), return values']))
L.append(P('C04','Reset lands where it says and always reaches the last data','A reset to any position inside the segment returned by the last read succeeds, returns that position and leaves the data pointer valid; in-memory streams reach every position of their content. After any successful reset the returned value equals the position, lies inside the stream, and reading continues there with the right data; a failed reset is visible as an error status and a negative result.',['histories','inputs'],'every reset target after every history','tests reset to a few positions of a few streams',core,[('reset of the buffered stream','include/strigi/bufferedstream.h'),('reset of wrappers','lib/subinputstream.cpp')],obs=['return value of reset(), position(), following reads']))
L.append(P('C05','Skip advances by exactly what it reports','Skipping n items advances the position by the returned count, never more than n; when n items are left exactly n are skipped, and when fewer are left the skip stops at the end, reports how many there were, and the end state is set. A failure while skipping is visible as a result smaller than n.',['histories','inputs'],'every count (also beyond 32 bits) at every position after every history','tests skip a few small counts',core,[('default and buffered skip','include/strigi/bufferedstream.h'),('file skip by seeking','lib/skippingfileinputstream.cpp')],obs=['return value of skip(), position(), status()']))
L.append(P('C06','A sub-stream is a window that never leaves its bounds','A sub-stream created on an input at position p with length n delivers exactly the input items p .. p+n-1 (or up to the end of the input when no length is given), at positions counted from 0, and never reads, skips or resets its input to a place outside that window. An input that ends before the promised length makes the sub-stream report an error rather than a silent end.',['histories','inputs','fault_sequences'],'every window, every input chunking and failure, every call history','tests use a few windows on string streams',['lib/subinputstream.cpp','include/strigi/subinputstream.h'],[('window arithmetic','lib/subinputstream.cpp')],obs=['the calls made on the wrapped input and the data delivered']))
L.append(P('C07','A string-terminated sub-stream ends exactly at its terminator','A stream that ends at a terminator delivers exactly the input up to the first occurrence of the terminator (all of the input when there is none), wherever the terminator falls relative to the chunks of the input, and leaves the input positioned right after the terminator when the end is reached. Limits, positions, resets and the reported size follow the rules of every stream.',['inputs','histories'],'every content, terminator and input chunking; in particular terminators split over chunks and partial matches that restart','the existing test reads one short string',['lib/stringterminatedsubstream.cpp','include/strigi/stringterminatedsubstream.h','lib/kmpsearcher.cpp'],[('terminator scan','lib/stringterminatedsubstream.cpp')],obs=['data delivered, position of the input afterwards']))
L.append(P('C08','A data-event stream reports every byte exactly once, in order','A stream that forwards its data to a listener hands the listener each byte of the content exactly once and in order, no matter how the reader reads, skips, resets and re-reads, and signals the end exactly when the whole content has been seen. The reader sees the same data as without the listener.',['histories','inputs'],'every history of reads, skips and backward/forward resets','tests read straight through',['lib/dataeventinputstream.cpp','include/strigi/dataeventinputstream.h'],[('event bookkeeping by total read position','lib/dataeventinputstream.cpp')],obs=['the calls to the listener']))
L.append(P('C09','Decompressing streams invert compression','Reading a gzip, zlib, bzip2 or lzma stream built over any chunking of a valid compressed file yields exactly the original data with the stream rules for limits, end and size. Truncated or damaged compressed data ends in the error state, never in an invented, shortened-but-healthy or repeated result, and never touches memory outside its buffers.',['inputs','histories','fault_sequences'],'every content, compression level, chunking of the input, truncation point and request size','tests decompress a few small files with a full buffer',['lib/gzipinputstream.cpp','lib/bz2inputstream.cpp','lib/lzmainputstream.cpp'],[('feeding the decompressor','lib/gzipinputstream.cpp'),('feeding the decompressor','lib/bz2inputstream.cpp'),('feeding the decompressor','lib/lzmainputstream.cpp')],obs=['data read, status']))
L.append(P('C10','Base64 decoding inverts encoding','Decoding the base64 form of any byte sequence, with line breaks and other ignorable characters anywhere and with the input cut into chunks anywhere, gives back exactly that sequence, both for the stream and for the whole-string function. Decoding never writes outside its buffers for any input text.',['inputs'],'every byte sequence, every placement of ignorable characters, every chunking','tests decode a few fixed strings',['lib/base64inputstream.cpp','lib/base64inputstream.h'],[('quantum assembly over chunks','lib/base64inputstream.cpp')],obs=['data read']))
L.append(P('C11','Charset conversion streams convert exactly','A converting stream or character reader over any input chunking yields exactly the conversion of the whole text: characters split over chunk ends or over small target buffers are neither lost nor duplicated. Invalid or truncated sequences and unknown charsets end in the error state; nothing is invented.',['inputs','histories','fault_sequences'],'every text, every supported charset pair, every chunking and request size','tests convert one or two short texts',['lib/encodinginputstream.cpp','lib/inputstreamreader.cpp'],[('left-over bytes between fills','lib/inputstreamreader.cpp'),('left-over bytes between fills','lib/encodinginputstream.cpp')],obs=['data read, status']))
L.append(P('C12','UTF-8 validation accepts exactly valid text','The validity check accepts a byte range if and only if it is well formed UTF-8 (no stray or missing continuation bytes, no overlong forms, no value above U+10FFFF) whose characters are allowed in XML 1.0 text (no control characters other than tab, line feed and carriage return, no surrogates, no U+FFFE or U+FFFF). The streaming variant returns, for other input, a position inside the first bad character with a count of 0, or, when only the last character is incomplete, the position where that character starts and the number of bytes it still needs; no byte outside the range is read.',['inputs'],'every byte sequence and every cut into pieces','tests use a few strings',['lib/textutils.cpp','lib/textutils.h'],[('lead byte classification and continuation count','lib/textutils.cpp')],obs=['return values']))
L.append(P('C13','Text and number helpers compute what they say','Little- and big-endian readers return the value whose bytes are at the given address for every byte combination and width (16, 32, 64 bit). The MS-DOS date conversion gives the local time encoded in the fields for every valid date and time, and newline removal replaces every CR and every LF by a space and changes nothing else.',['inputs'],'every byte combination; every DOS date; every string','tests check a few values',['lib/textutils.h','lib/textutils.cpp','lib/dostime.cpp'],[('endian readers','lib/textutils.h'),('dos time','lib/dostime.cpp')],obs=['return values']))
L.append(P('C14','The searcher finds the first occurrence of the query','Searching a text for a query returns the address of its first occurrence, or nothing when there is none, for every query (also periodic ones and the empty one) and every text, and reads only the given text.',['inputs'],'every query and text','tests search a few words; wrong shifts only show on particular periodic queries',['lib/kmpsearcher.cpp','include/strigi/kmpsearcher.h'],[('shift tables and search loop','lib/kmpsearcher.cpp')],obs=['return value']))
L.append(P('C15','Format sniffers recognise exactly their signature','Each format check (gzip, bzip2, lzma, zip, tar, ar, cpio, rpm, ole, sdf, mail), given any block of bytes of any length, accepts precisely the blocks that carry the signature of its format: gzip 1f 8b (more than 2 bytes); bzip2 "BZ" + "h" or "0" + any byte + the pi magic (at least 10 bytes); zip "PK" 03 04 (more than 8); ar "!<arch>\\n"; cpio "070701"; rpm ed ab ee db 03 00; ole its eight byte magic (more than 8); lzma a legal properties byte with plausible dictionary and data size; tar at least 257 bytes with a printable name and octal or blank numeric fields as checked today; sdf "V2000" in the fourth line; mail a 7 bit header with mail header lines. It reads nothing beyond the bytes given, also for short blocks.',['inputs'],'every header content and length','tests offer a few valid files',['lib/gzipinputstream.cpp','lib/bz2inputstream.cpp','lib/lzmainputstream.cpp','lib/zipinputstream.cpp','lib/tarinputstream.cpp','lib/arinputstream.cpp','lib/cpioinputstream.cpp','lib/rpminputstream.cpp','lib/oleinputstream.cpp','lib/sdfinputstream.cpp','lib/mailinputstream.cpp'],[('header checks','lib/*inputstream.cpp')],obs=['result of the header checks']))
arch=['lib/tarinputstream.cpp','lib/arinputstream.cpp','lib/cpioinputstream.cpp','lib/zipinputstream.cpp','lib/rpminputstream.cpp','lib/oleinputstream.cpp','lib/sdfinputstream.cpp','lib/mailinputstream.cpp']
L.append(P('C16','No archive content makes a parser misuse memory or hang','Opening and iterating any byte sequence whatsoever as tar, ar, cpio, zip, rpm, ole, sdf or mail, reading all or part of the entries, never reads or writes outside the memory involved, never frees twice, never aborts, and comes to an end.',['inputs','fault_sequences'],'every byte sequence (truncated, damaged, malicious) and input chunking','tests only open well formed archives',arch,[('header parsers','lib/*inputstream.cpp')],obs=['sanitizers, termination']))
L.append(P('C17','Tar iteration yields every member with its name, size and data','Iterating a well formed tar archive (ustar or old style, names of up to 100 characters in the name field or GNU long names of any length) yields its members in order, each with exactly its name (without a leading "./" or the trailing "/" of a directory), size, time and content, whether or not the previous member was read, partly read or skipped, for every input chunking. A truncated archive ends in the error state.',['inputs','histories'],'every member list, partial reading pattern and chunking','tests read one small archive front to back',['lib/tarinputstream.cpp','lib/subinputstream.cpp'],[('entry header and padding','lib/tarinputstream.cpp')],obs=['nextEntry(), entryInfo(), entry data']))
L.append(P('C18','Cpio iteration yields every member with its name, size and data','Iterating a well formed cpio archive (new ASCII format) yields its members in order up to the trailer, each with exactly its name, size, time and content, independent of how much of earlier members was read and of input chunking. A truncated header or one whose fields are not hexadecimal ends in the error state.',['inputs','histories'],'every member list, partial reading pattern and chunking','tests read one small archive front to back',['lib/cpioinputstream.cpp'],[('entry header and padding','lib/cpioinputstream.cpp')],obs=['nextEntry(), entryInfo(), entry data']))
L.append(P('C19','Ar iteration yields every member with its name, size and data','Iterating a well formed ar archive (short names without blanks, or a GNU long name table) yields its members in order, each with exactly its name, size, time and content, independent of how much of earlier members was read and of input chunking. A truncated header, a negative size or a name beyond the name table ends in the error state.',['inputs','histories'],'every member list, partial reading pattern and chunking','tests read one small archive front to back',['lib/arinputstream.cpp'],[('entry header, name table and padding','lib/arinputstream.cpp')],obs=['nextEntry(), entryInfo(), entry data']))
L.append(P('C20','Zip iteration yields every member with its name, size and data','Iterating a well formed zip archive (without zip64 extensions) yields its members in order, each with exactly its name, time, size and content, for stored and deflated members, with sizes in the header or, for deflated members, in a trailing descriptor (the size is then reported as unknown), independent of how much of earlier members was read and of input chunking. Iteration stops cleanly at the central directory.',['inputs','histories'],'every member list, method, partial reading pattern and chunking','tests read two small archives front to back',['lib/zipinputstream.cpp','lib/gzipinputstream.cpp'],[('local header, descriptor search','lib/zipinputstream.cpp')],obs=['nextEntry(), entryInfo(), entry data']))
L.append(P('C21','Container iteration protocol and dispatch','For every container format, once iteration has ended or failed no further entry appears, at most one entry is current at a time and it is invalidated by moving on, and the container status tells a clean end from a failure. Dispatch on the content offers the provider whose format check accepts the header and hands it the stream from its start, without losing data.',['histories','inputs'],'every history of nextEntry calls and entry reads on every container','tests walk each container once',['include/strigi/substreamprovider.h','lib/substreamproviderprovider.cpp'],[('dispatch by header','lib/substreamproviderprovider.cpp')],obs=['nextEntry(), currentEntry(), status()']))
L.append(P('C22','A process stream delivers exactly the output of its command','A process stream yields exactly the bytes the command writes to its standard output, in order, then the end of the stream, however the output is timed and, when an input is given, feeds that input to the command completely and in order. Destroying the stream early ends the command.',['schedules','inputs'],'every output, timing of the process and input chunking','tests run one or two short commands',['lib/processinputstream.cpp'],[('pipe reading and feeding','lib/processinputstream.cpp')],obs=['data read']))
L.append(P('C23','Mail, SDF, RPM and OLE containers yield their parts exactly','Iterating a well formed multipart mail message, SDF file, RPM package or OLE document yields its parts in order, each with exactly its name and content (mail parts up to the boundary marker, base64 parts decoded; sdf records without their delimiter and the line breaks after it; the non-empty streams of an ole document), for every input chunking and however much of earlier parts was read.',['inputs','histories'],'every part list and chunking','tests open one file of a few of these formats',['lib/mailinputstream.cpp','lib/sdfinputstream.cpp','lib/rpminputstream.cpp','lib/oleinputstream.cpp'],[('part boundaries','lib/mailinputstream.cpp'),('record delimiter','lib/sdfinputstream.cpp'),('header sizes','lib/rpminputstream.cpp'),('block chains','lib/oleinputstream.cpp')],obs=['nextEntry(), entry data']))
L.append(P('C24','Nested archive paths open like directories','Opening a path that leads through files inside archives inside archives gives the same data as extracting step by step, and listing such a path gives exactly the entries of that level.',['inputs','histories'],'every nesting of archives and every order of opening and listing','tests open a few fixed paths',['lib/archivereader.cpp','lib/archiveentrycache.cpp','lib/listinginprogress.cpp'],[('path resolution and cache','lib/archivereader.cpp')],obs=['openStream(), dirEntries()']))
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in L)+'\n')
