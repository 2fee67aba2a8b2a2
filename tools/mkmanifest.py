"""Write MANIFEST.json."""
import json
TECH={
'C01':('seeded thread-schedule simulation with single-preemption enumeration','exploration',"Every explored interleaving answers as an independent model of the published schedule; all single-preemption schedules of the generated query pairs, sampled beyond. Assumes calls into pandas/numpy are atomic."),
}
NA={'C14':'Rule tables against real-world exchange history: no schedule, fault or clock influences the answer and no ground truth is available offline.',
'C15':'Pure functions of their arguments; simulation with faults adds nothing to input enumeration (the C01/C02 model checks them on unambiguous arguments as a by-product).',
'C16':'A pure check of constructor arguments; no schedule, fault, clock or history involved.',
'C17':'A pure function of date and time zone; no schedule, fault, clock or history involved.'}
HERE = __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
TECH.update({
'C02':('seeded history simulation with injected errors, against a fresh-calendar model','fault_enumeration','Sampled query histories with errors at sampled points; every answer equals the model of the published schedule.'),
'C03':('fault injection at every kind of registry step, against a reference registry','fault_enumeration','Sampled operation histories, factories that fail, re-enter or are interrupted; after every call the registry equals the reference before or after it.'),
'C04':('seeded thread-schedule simulation with a linearizability checker','exploration','Sampled schedules and single preemptions of 2-4 threads of registry calls; each history must be explained by some one-at-a-time order.'),
'C05':('fault injection during construction of every exchange calendar','fault_enumeration','Errors at sampled code sites of every exchange construction; state and later constructions compared with ones made alone in a fresh process.'),
})
TECH['C06']=('seeded thread-schedule simulation of concurrent constructions','exploration','Sampled schedules of 2-3 threads constructing every exchange calendar; each result equals one made alone in a fresh process and process-wide state is restored. Calls into pandas/numpy are atomic.')
TECH['C07']=('simulated processes with seeded start instants and windows, against a whole-range calendar','exploration','Sampled windows with edges aimed at special days, of every exchange; each agrees with a calendar over all years built by another simulated process.')
TECH['C08']=('simulated processes with seeded start instants, time zones and clock jumps','exploration','Every exchange at the latest simulated instant, and sampled instants of 2021-2048; well-formedness, coverage and queries about the current minute.')
TECH['C12']=('simulated version-control processes with enumerated and seeded failures','fault_enumeration','Every single failure of every invocation, and sampled sequences of failures; processes are simulated at the subprocess seam.')
TECH['C10']=('simulated collector and allocator under seeded build/query/drop histories','exploration','Sampled histories with collections between and inside calls and injected errors; every answer equals the model of the asked calendar and dropped calendars are gone after collection.')
TECH['C13']=('seeded thread schedules, collections and injected errors over lazy attributes','exploration','Sampled interleavings of 1-4 readers with collections at any scheduling point, address reuse and injected errors, against a reference of per-object values.')
TECH['C09']=('simulated command processes with seeded clocks, arguments and failing output devices','fault_enumeration','Sampled arguments and start instants, clock jumps between readings, and writes failing at every position of sampled outputs; the text is compared with one rendered from the sessions.')
TECH['C11']=('simulated copying, pickling and shipping between processes with seeded histories and failing writes','exploration','Sampled query histories before and after copy, deepcopy and pickle of every protocol; both sides answer as the model of the published schedule. Truncated and failing transfers must be refused.')
TECH['C18']=('seeded thread-schedule simulation with a fork at every kind of scheduling point','exploration','Sampled schedules and fork points; in the child no call blocks and every answer, name and constructed calendar equals the reference. The fork is simulated: other threads vanish, the fork handlers of the package run.')
ids=[json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
m={'version':1,'setup_cmd':'./run --build-only',
'hooks':{'guard':'none','enable':'No hooks in /repo: the simulator adds its scheduling points while importing the working tree.','source_commits':[]},
'checks':[],'not_applicable':[],
'notes':'All checks are deterministic simulations started by ./run <ID>; see DESIGN.md. Replay: ./run <ID> --replay FILE.'}
for i in ids:
    if i in TECH:
        t,l,n=TECH[i]
        m['checks'].append({'property':i,'quick_cmd':'./run %s --tier quick'%i,'thorough_cmd':'./run %s --tier thorough'%i,'evidence_file':'evidence/%s.json'%i,'technique':t,'level':l,'level_note':n})
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'No check yet.')})
json.dump(m,open(HERE + '/MANIFEST.json','w'),indent=1); open(HERE + '/MANIFEST.json','a').write('\n')
