import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CONC={'C10','C11','C12','C24','C27'}
import os,sys
have=[f[:3].upper() for f in os.listdir('/verif/harness/seq') if f.startswith('c')]
have=set(have)|{'C03'}
if os.path.exists('/verif/harness/conc'): have|=CONC
T={
'seq':"explicit exhaustive enumeration of the real code's executions (all inputs, segmentations, answers and histories up to a bound) against a reference model, on a virtual clock",
'conc':"stateless model checking of the real code: every schedule with up to k deviations from the default one (delay bounding, k=2 to 5 by scenario), under a controlled scheduler on a virtual clock",
}
N={
'C01':"all unit sequences to length 3 (4) with every cut, all frame lengths 0-65535, all channels; whole sessions with every answer cut everywhere",
'C02':"all NAL types, sizes, packetisations and packet sequences up to the stated depth, compared with the units packed",
'C03':"as C02 for the HEVC payload format",
'C04':"all channel/track/codec combinations and packet histories up to the stated depth",
'C05':"all short byte strings and all single-point corruptions of every server message; crash isolation in worker processes",
'C06':"every status at every step for 1-N media against the reference protocol machine",
'C07':"all sequences of calls and answers up to the stated depth; every byte the client sends is parsed",
'C08':"all challenge spellings and histories; the authorization is recomputed by the oracle",
'C09':"silence or close at every byte of every answer, on a virtual clock",
'C10':"all interleavings of play, close, data and disconnect up to the deviation bound, on the instrumented real code; memory is sequentially consistent, switches only at instrumented points",
'C11':"all interleavings of senders, close and the send routine up to the deviation bound, on the instrumented real code; memory is sequentially consistent, switches only at instrumented points",
'C12':"all interleavings of send, close, peer close, read and write errors up to the deviation bound, on the instrumented real code; memory is sequentially consistent, switches only at instrumented points",
'C13':"all protocols of a finite family, all short streams, all cuts and end points",
'C14':"all histories of uses up to depth 3, each use compared with that of a new session",
'C15':"full product of URL parts over real loopback sockets",
'C16':"all field values of a finite alphabet and all pairs of sections; equality after encode and decode",
'C17':"all line sequences and all short byte strings up to the stated depth against a reference grammar",
'C18':"all assignments of fields to sections up to the stated size",
'C19':"all line lists and all reuse histories up to the stated depth",
'C20':"every second of boundary ranges and all powers, every interval spelling up to the bound; not all 2^64 values",
'C21':"all attribute combinations and orders up to the stated depth against a reference reader",
'C22':"every cut of every answer by every kind of websocket boundary, compared with the run over TCP",
'C24':"all merges of the scripts' steps of two (three) sessions with up to 5 (3) changes of session, each compared with the session alone, and all schedules of two sessions at once up to the deviation bound",
'C25':"all pairs over products of field values, all addition sequences up to the bound against an ordered multimap",
'C26':"every choice of slow deliveries up to two, durations, cuts, ends and uses of the data, on a virtual clock",
'C27':"all interleavings of two and three callers, the session's routines and the server up to the deviation bound, on the instrumented real code; memory is sequentially consistent, switches only at instrumented points",
'C23':"all spellings of a finite grammar, all truncations, all short header blocks",
}
checks=[]; na=[]
for p in props:
    i=p['id']
    if i not in have:
        na.append(dict(property=i,reason='the check is being built')); continue
    checks.append(dict(property=i,quick_cmd=f"VERIF_TIER=quick ./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
      technique=T['conc' if i in CONC else 'seq'],level="model_checking",level_note=N[i]))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),len(na))
