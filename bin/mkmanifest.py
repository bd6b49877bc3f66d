import json, os
OUT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','MANIFEST.json')
T="deterministic simulation with fault injection: seeded search over "
G=" Sampled, not exhaustive. Trusted: the simulator's runtime and the overlay that puts it under the package, the Go standard library and the compression libraries (run as they are, atomic to the scheduler)."
checks={
"C01":("schedules of concurrent package-level calls, race detector on, each call compared with the same call alone","Every schedule decision (which task runs after every statement, pool contents, map order) comes from one seed; a data race is reported by the race detector only if the accesses are unordered in the simulated schedule."),
"C02":("schedules and callback faults of tasks sharing one Encoder, race detector on, each call compared with the same call alone","As C01; the document of each call is compared through an independent decoder with what the same call writes alone."),
"C03":("schedules and faults of tasks with codec objects of their own, race detector on, each result sequence compared with the one produced alone","As C01."),
"C04":("histories of decodes with storage faults and failing callbacks on one Decoder, each result compared with a new Decoder's","The oracle is the code itself with a new Decoder: a fault common to both is not seen here."),
"C05":("histories of encodes with failing callbacks, compressors and limits on one Encoder, each result compared with a new Encoder's","Documents are compared through an independent decoder; the oracle is the code itself with a new Encoder."),
"C06":("torn writes: every stored document is cut at up to 60 places (all places of small ones) and fed to every entry point","Documents come from an independent writer and from the encoder; all cuts of documents up to 60 bytes, sampled cuts of longer ones."),
"C07":("storage and transmission faults on documents fed to every decoding entry point, bounded in simulated steps","A hang is more than a step budget proportional to the input; a crash of the process is a violation."),
"C08":("damaged length, count and size fields, with the allocation of every entry point measured","Allocation is measured with the runtime's counters; the bound is 4 MB plus 400 bytes for every byte of document and payload, times the number of damaged fields plus one."),
"C09":("storage faults confined to the compressed body of zlib documents, results compared with the undamaged value","Damage that happens to give a complete zlib stream with a matching checksum is not judged."),
"C10":("schedules of tasks sharing input documents and values, faults included, inputs compared with copies taken before, race detector on","Spare capacity behind documents is compared too; writes that put back the same value are only seen by the race detector."),
"C11":("histories in which inputs, results and earlier buffers are overwritten after each call, every result compared with what it was","Mutation goes through every byte slice, map, slice and pointer reachable from a result."),
"C12":("histories of appends of well-formed, torn and damaged documents to one Merger, the result compared with the sequence of what was accepted","An independent decoder reads the appended and the merged documents."),
"C13":("failing and expanding compressors during repeated Finish calls, results compared with the appended elements","Compressors fail at the times the seed decides; all real compressors are used too."),
"C14":("histories of decompressions of intact and damaged documents into dirty and reused destinations, compared with an independent decompressor","Destinations: absent, empty, short, exact, large, earlier results."),
"C15":("failures (errors, panics, ended goroutines) injected at chosen invocations of the user's callbacks","A fault-free run of the same call counts the invocations first."),
"C16":("schedules with callbacks that stall until nothing else can run, fail, end their goroutine or call back into the package","Progress: every unaffected call has to end while the stalled ones wait; simulated locks see who waits for whom."),
"C17":("iteration orders of every map the encoder walks, each document decoded by an independent decoder and compared","Map order is drawn from the seed at every iteration (ascending, descending, rotated, shuffled)."),
"C18":("storage faults confined to the body or to the user header, the other part compared with the undamaged one","Header damage keeps the header's size as it is."),
"C23":("long histories of successful and failing calls with contents that are new each time, the memory in use and the goroutines alive measured between their parts","Growth of more than 32 kB over 150 to 3000 calls counts; pools are emptied before each measurement, as the garbage collector does."),
"C24":("histories of calls on many objects and package-level functions in one process, faults and failing callbacks included, each compared with the same calls first in a process","The oracle is the code itself with its package-level state as it is at start."),
}
na={
"C19":"A pure function of its input: no schedule, fault or history to simulate. The simulations of C02, C05, C10 and C17 still decode what they encode.",
"C20":"Conformance of single documents to the specification is a pure function of its input: no schedule, fault or history to simulate.",
"C21":"The recursion limit is a pure function of value and limit: no schedule, fault or history to simulate.",
"C22":"The mapping of struct fields is a pure function of type and document: no schedule, fault or history to simulate (its cache is part of C01 to C03).",
}
m={"version":1,"setup_cmd":"bin/setup.sh","checks":[],"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"hooks":{"guard":"none needed","enable":"The checks put yield points and simulated sync primitives under the package with 'go build -overlay', from the working tree; /repo itself carries no hooks.","source_commits":[]},
"notes":"One framework (sim/): see DESIGN.md. 'bin/check.sh ID --replay FILE' repeats a violation."}
for k,(t,n) in checks.items():
    m["checks"].append({"property":k,"quick_cmd":"bin/check.sh "+k,"thorough_cmd":"VERIF_TIER=thorough bin/check.sh "+k,"technique":T+t,"level":"exploration","level_note":n+G})
json.dump(m,open(OUT,'w'),indent=1); open(OUT,'a').write('\n')
import json, os
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
