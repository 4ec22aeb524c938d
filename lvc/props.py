"""Which contracts and which executable checks decide each property."""
ASSUME = [
    'clang 18 -O0 + sroa/mem2reg translate the sources faithfully; the binary that runs is built by another compiler from the same text',
    'allocation succeeds; exceptions are not modelled (the code is extracted with -fno-exceptions)',
    'no concurrent use of one stream object',
]
STREAM_ASSUME = [
    'requests: minimum >= 1; buffered streams: minimum <= 2^29 (a larger one overflows the 32 bit buffer size); skip count and reset position between 0 and 2^57',
    'wrapped input streams and fillBuffer implementations keep their documented interface contract (adversarial within it)',
]
ALLKINDS = 'string wstring buffered wbuffered default file nofile sub term event gz bz lzma b64 enc noenc'
def has(*tags): return lambda t: all(x in t.tags for x in tags)
def named(*parts): return lambda t: any(p in t.name for p in parts)
PROPS = {
 'C01': dict(modules=['tasks_core', 'tasks_wrap'], select=lambda t: 'stream' in t.tags and ('::read' in t.name or 'makeSpace' in t.name or 'StringStream' in t.fn.split('::')[-1]), aspects='data',
             nat=[dict(harness='streams', kinds='string wstring buffered wbuffered default file sub event gz bz lzma b64 enc', tags='data after', secs=22)], assume=STREAM_ASSUME),
 'C02': dict(modules=['tasks_core', 'tasks_wrap'], select=lambda t: 'stream' in t.tags and ('::read' in t.name or 'makeSpace' in t.name), aspects='count eof state',
             nat=[dict(harness='streams', kinds='string wstring buffered wbuffered default file sub term event gz bz lzma b64 enc', tags='count eof state', secs=22)], assume=STREAM_ASSUME),
 'C03': dict(modules=['tasks_core', 'tasks_wrap'], select=lambda t: 'stream' in t.tags and any(x in t.name for x in ('::read', '::skip', '::reset')) and 'StreamBuffer' not in t.name, aspects='error',
             nat=[dict(harness='streams', kinds=ALLKINDS, tags='error', secs=22)], assume=STREAM_ASSUME),
 'C04': dict(modules=['tasks_core', 'tasks_wrap'], select=lambda t: 'stream' in t.tags and '::reset' in t.name, aspects='reset state eof',
             nat=[dict(harness='streams', kinds='string wstring buffered wbuffered default file sub term event gz bz lzma b64 enc', tags='reset', secs=22)], assume=STREAM_ASSUME),
 'C05': dict(modules=['tasks_core', 'tasks_wrap'], select=lambda t: 'stream' in t.tags and '::skip' in t.name, aspects='skip state eof',
             nat=[dict(harness='streams', kinds='string wstring buffered wbuffered default file sub term event gz bz lzma b64 enc', tags='skip', secs=22)], assume=STREAM_ASSUME),
}
W = lambda *tags: (lambda t: any(x in t.tags for x in tags))
ALLTAGS = 'data after count eof state error reset skip'
def N(harness, kinds, secs, tags='', **k): return dict(harness=harness, kinds=kinds, tags=tags, secs=secs, **k)
PROPS.update({
 'C06': dict(modules=['tasks_wrap'], select=W('sub'), nat=[N('streams', 'sub', 12)], assume=STREAM_ASSUME),
 'C07': dict(modules=['tasks_wrap', 'tasks_text'], select=W('term', 'kmp'), nat=[N('streams', 'term', 12)], assume=STREAM_ASSUME),
 'C08': dict(modules=['tasks_wrap'], select=W('event'), nat=[N('streams', 'event', 12)], assume=STREAM_ASSUME),
 'C09': dict(modules=['tasks_dec'], select=W('inflate'), nat=[N('streams', 'gz bz lzma', 20)], assume=STREAM_ASSUME),
 'C10': dict(modules=['tasks_dec'], select=W('base64'), nat=[N('streams', 'b64', 12)], assume=STREAM_ASSUME),
 'C11': dict(modules=['tasks_dec'], select=W('iconv'), nat=[N('streams', 'enc noenc state', 20)], assume=STREAM_ASSUME),
 'C12': dict(modules=['tasks_text'], select=W('utf8'), nat=[N('text', 'utf8', 12)]),
 'C13': dict(modules=['tasks_text'], select=W('endian', 'dos', 'newline'), nat=[N('text', 'endian dos newline', 8)]),
 'C14': dict(modules=['tasks_text'], select=W('kmp'), nat=[N('text', 'kmp', 12)]),
 'C15': dict(modules=['tasks_text'], select=W('sniff'), nat=[N('text', 'sniff', 12)]),
 'C16': dict(modules=['tasks_arch'], select=W('parser'), nat=[N('archives', ' '.join('fuzz-' + k for k in 'tar cpio ar zip rpm ole sdf mail'.split()), 25)], assume=STREAM_ASSUME),
 'C17': dict(modules=['tasks_arch'], select=W('tar'), nat=[N('archives', 'tar', 15)], assume=STREAM_ASSUME),
 'C18': dict(modules=['tasks_arch'], select=W('cpio'), nat=[N('archives', 'cpio', 12)], assume=STREAM_ASSUME),
 'C19': dict(modules=['tasks_arch'], select=W('ar'), nat=[N('archives', 'ar', 12)], assume=STREAM_ASSUME),
 'C20': dict(modules=['tasks_arch'], select=W('zip'), nat=[N('archives', 'zip', 12)], assume=STREAM_ASSUME),
 'C21': dict(modules=['tasks_arch'], select=W('proto'), nat=[N('archives', 'tar cpio ar zip rpm ole sdf mail provider', 20, 'proto members trunc dispatch')], assume=STREAM_ASSUME),
 'C22': dict(modules=['tasks_proc'], select=W('process'), nat=[N('process', '', 15)], assume=STREAM_ASSUME),
 'C23': dict(modules=['tasks_arch'], select=W('parts'), nat=[N('archives', 'rpm ole sdf mail', 20)], assume=STREAM_ASSUME),
})
NOT_APPLICABLE = {
 'C24': 'path resolution and listing in ArchiveReader/DirLister work on recursive std::map/std::set/std::list structures of reference-counted entries built by recursion over nested providers and the real file system; the contract verifier built here (no deductive verifier for C++ is installed) has no theory for node-based containers or for the file system, so no contract within its reach expresses the property',
}
