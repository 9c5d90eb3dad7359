import json,glob,re,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
why={
'C01':("real `BinaryEncode` then `BinaryDecode`; oracle: the span itself, and the number of bytes consumed","tests round-trip one fixed span; here every byte of every field within the bounds"),
'C02':("`BinaryDecode` on symbolic bytes; panics, allocation (`maxalloc`), step limit and the error for each prefix are the oracle","the interesting inputs (over-long varints, negative counts, huge lengths) are single points in 2^64"),
'C03':("`balance.Sender` with a recording producer; messages are looked at when they arrive and again at the end","aliasing between messages depends on sizes relative to the 512-byte slots and 32 KiB buffer"),
'C04':("the `ConsumerGroupHandler` that `balance.Consume` hands to a stand-in group, with a claim of symbolic messages; the order of events (callback, mark) is recorded","skipping must be right for every malformed message"),
'C05':("`balance.Consume` with a stand-in group; stop at every scheduling point","a race between stop and rejoin"),
'C06':("the three functions of `cache`; oracle: the bytes as they were, compared after every step","history and eviction dependent; aliasing"),
'C07':("the LRU through its methods against a list model written in the harness","every history of the length, every choice of equal strings"),
'C08':("`ParseSpansV1/V2/Jaeger` on symbolic bodies; panics, steps and stack depth are the oracle","arbitrary malformed input"),
'C09':("the same document through readers that split it differently, results compared with one reader giving it at once","every cut at every place, buffer boundaries"),
'C10':("`hyperjson` string reading against an independent decoder of JSON strings in the harness","every escape, every surrogate"),
'C11':("documents with and without an unknown member, results compared","every value of a grammar, every name near a known one"),
'C12':("`ParseSpansV2` on documents generated together with the span they mean","every combination of members and digits"),
'C13':("`ParseSpansV1` likewise; service and time rules written out from the statement","every sequence of up to four annotations"),
'C14':("`ParseSpansJaeger` likewise","every combination of tags and references"),
'C15':("parse, then parse others, then parse again: equal results; earlier results unchanged; pool hits are choices","recycled buffers: history dependent"),
'C16':("`proxy.Id` against arithmetic in the harness","every id"),
'C17':("the handlers with in-memory requests; oracle: the parser run on the decompressed body, and the channel's content","every malformed body, reader error and interleaving"),
'C18':("trace assembly through `ErrorCorrectSpans` with the halves in both orders","every combination of fields"),
'C19':("`ErrorCorrectSpans` on histories; oracle: sets kept by the harness","every history of the length"),
'C20':("`ErrorCorrectSpans` with symbolic pauses; oracle: the release rule computed from the times","every nanosecond around the limits"),
'C21':("`ErrorCorrectSpans` on trees with symbolic clocks; oracle: the statement's formula","arbitrary clocks"),
'C22':("`ErrorCorrectSpans` with up to 108000 spans; oracle: counts","the limits are at sizes and times tests do not reach"),
'C23':("fan-out with arbitrary converter results per span","every combination of failures; aliasing between sinks"),
'C24':("`datadog.Sink` with a recording transport; oracle: multiset of spans and the flush rule","batch limits, times"),
'C25':("`SpansBuffer` against a list model, and with concurrent readers","wrap-around, interleavings"),
'C26':("hyperjson integers: symbolic digits against arithmetic in wider integers; the three spellings that must be rejected","every 64-bit boundary"),
'C27':("race detection by vector clocks over every schedule within the bound, plus the single-threaded results as oracle","schedules"),
'C28':("real `time` package executed symbolically for a whole day of nanoseconds and second-wise for the days; other days sampled as bounds say","every nanosecond"),
'C29':("every stage with its input closed at every moment; dead ends and leftover goroutines (`vsym.Goroutines`) are violations","interleavings of close with pending work"),
'C30':("`datadog.Sink` with an agent that hangs, fails or is slow; acceptance must take no (virtual) time","fault schedules"),
'C31':("the proxy as `Main`/`MainWithRouting` starts it, with posted documents and a recording agent","all parts together: order, format, timing"),
'C32':("two proxies as `Main` starts them, at one in-memory Kafka topic","placement of partitions, order, restarts"),
}
seeds={}
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); seeds.setdefault(m['property'],[]).append((os.path.basename(d),m))
hs={}
for f in sorted(glob.glob(V+'/harness/*/*.go')):
    if os.path.basename(f).startswith('common') or '/vsym/' in f: continue
    doc=[]
    for l in open(f):
        if l.startswith('//gosym:'):
            q=re.search(r'quick=(\d+)',l); t=re.search(r'thorough=(\d+)',l)
        elif l.startswith('//'): doc.append(l[2:].strip())
        elif l.startswith('func ZZ'):
            n=re.match(r'func (ZZ(C\d+)_\w+)',l); hs.setdefault(n.group(2),[]).append((n.group(1),' '.join(doc),f[len(V)+1:])); doc=[]
        elif not l.strip(): doc=[]
cost={}
try:
    for l in open('/verif/tools/costs.txt'):
        p=l.split(); cost[p[0]]=p[1]
except FileNotFoundError: pass
out=["## 3. The properties: harnesses, oracles, bounds\n",
"For each property: what is executed and against what oracle; why tests cannot settle it; the harnesses with their bounds (quick tier,","deeper ones in parentheses for the thorough tier); the time of a quick run on 8 cores.\n"]
for p in props:
    i=p['id']
    out.append(f"### {i} {p['title']}\n")
    w=why[i]
    out.append(f"Executed and oracle: {w[0]}. Beyond tests: {w[1]}."+(f" Quick run: about {cost[i]} s." if i in cost else ''))
    out.append('')
    for n,doc,f in hs[i]: out.append(f"- `{n}` ({os.path.basename(os.path.dirname(f))}): {doc}")
    out.append('')
s=open(V+'/DESIGN.md').read()
a='<!-- generated by tools/mkdesign.py: properties -->\n'; b='<!-- end -->\n'
body=a+'\n'.join(out)+b
s=re.sub(re.escape(a)+'.*?'+re.escape(b),lambda m:body,s,flags=re.S) if a in s else s+body
a='<!-- generated by tools/mkdesign.py: planted changes -->\n'
caught={}
try:
    for l in open(V+'/tools/caught.txt'):
        k,_,v=l.strip().partition(' '); caught[k]=v
except FileNotFoundError: pass
t=[f"{sum(len(v) for v in seeds.values())} changes, each confirmed to build, pass the tests and fail its demonstration. All are caught by the check of their property","(`tools/runseeds.sh`) unless said otherwise; the harness named is the one that reports it first.\n","| change | what breaks | needs | reported by |","|---|---|---|---|"]
for p in props:
    for n,m in seeds.get(p['id'],[]): t.append(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {caught.get(n,'')} |")
body=a+'\n'.join(t)+'\n'+b
s=re.sub(re.escape(a)+'.*?'+re.escape(b),lambda m:body,s,flags=re.S) if a in s else s+'\n## 6. Planted changes and what catches them\n\n'+body
open(V+'/DESIGN.md','w').write(s)
