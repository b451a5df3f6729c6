#!/usr/bin/env python3
# Source of MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)
import json
T={
"C01":("monitored parses of generated, mutated and enumerated texts; byte comparison of print + leftover","byte equality is decided on every observed text; texts are generated (valid, erroneous, mutated, noise), the repository's examples, and all short line/piece sequences"),
"C02":("panic hook, overflow checks, CPU watchdog, child-process crash detection, AddressSanitizer pass","hostile texts and call sequences; every panic, abort, hang or ASan report in a child process is a violation"),
"C03":("monitor comparing every lookup with an independent reference parser","reference parser and table model are written from the grammar and README, trusted as oracle; absent paths are sampled near the defined ones"),
"C04":("monitor comparing every children listing with an independent model and walking the document","as C03; the walk is checked for completeness and exactness on every document"),
"C05":("monitored updates; byte-level frame oracle from reference spans","the predicted text is spliced from the reference parser's spans"),
"C06":("monitored reshaping updates; predicted text, lookups and listings compared","as C05, with default layout predicted by the reference"),
"C07":("monitored refused updates; full before/after view comparison","acceptance is decided by the reference grammar"),
"C08":("history monitor: live view against a fresh parse after every step","differential: library against itself on its own text, plus model-predicted text"),
"C09":("monitor matching reported DuplicateKey errors one to one with the reference model","order, keys, values and first-wins lookups are compared"),
"C10":("monitor matching reported MixedArray errors one to one with the reference model","keys are used to look up and update the array"),
"C11":("monitor matching reported InvalidDateTime errors one to one with the reference calendar","all positions; calendar independent of the library"),
"C12":("monitor of header histories against an independent table model, with exhaustive short histories","all header/key line sequences up to a small length are enumerated, longer ones sampled"),
"C13":("monitored parses of documents valid by construction","two oracles: construction and reference parser agree before a verdict"),
"C14":("monitor comparing reported lines with reference spans","line ranges from the reference parser's spans"),
"C15":("monitor comparing the consumed prefix with a reference recogniser; enumerated short texts","all short piece sequences enumerated, plus edits of valid documents"),
"C16":("constructor/validate monitor against the reference grammar, with round trip through a document","integral f64 floats are a listed known finding"),
"C17":("exhaustive calendar and clock monitor over all constructor forms","all days of years 0-10000 are covered in thorough, a seeded share plus all boundaries in quick"),
"C18":("print/read-back monitor over values from documents and constructors","equality and text are judged independently of the library's own comparison"),
"C20":("process monitor of tomlkit: stdout, status and file snapshots against the linked library","the library is the oracle, as the property says; formatting is computed independently"),
"C21":("process monitor of tomlkit updates: file snapshots before and after, stored values read back by the reference parser","acceptance is decided by the reference grammar; unwritable outputs are injected"),
"C22":("process monitor of tomlkit under bad inputs and arbitrary arguments","panics, signals, status, messages and file snapshots are observed"),
"C23":("transcript comparison across repeats, parsers, threads and processes; ThreadSanitizer pass","schedules are those the OS produces under stress and random interleavings of operations"),
"C24":("counting allocator: held, peak and count at growing sizes; exact release balance","trend tests at three sizes in 30 families; exact balance for whole lifetimes"),
"C25":("monitor of ==, != and clone against a field-by-field comparison of the public data","all pairs of a pool of neighbouring values, and random values against copies changed in one place"),
"C26":("metamorphic monitor: a document against other layouts of the same statements","the library is compared with itself; the rewriting is checked by the reference parser"),
"C27":("metamorphic monitor: joined and interleaved unrelated documents against each part alone","the library is compared with itself, in three arrangements, before and after updates"),
}
checks=[{"property":k,"quick_cmd":f"./check.sh {k} quick","thorough_cmd":f"./check.sh {k} thorough","technique":"runtime monitoring: "+a,"level":"exploration","level_note":b} for k,(a,b) in sorted(T.items())]
print(json.dumps({"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":[],"notes":"No hooks in /repo: every monitor works through the public API, the tomlkit binary, the global allocator and sanitizer builds. check.sh rebuilds from /repo's working tree. Known findings: known_findings.txt."},indent=1))
