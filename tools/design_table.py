import json,os
p='/verif/DESIGN.md'; t=open(p).read()
t=t.replace("| C03 | 2-4 interpreters interleaved at allocations and calls in one process | each session's output/results/errors equal those of the same session alone |",
"| C03 | 2-4 interpreters interleaved in one process, at allocations and calls and - a build of /repo with `-fsanitize-coverage=trace-pc` - at any basic block; a `watch` switches where process-wide data of the library has just been written | each session's output/results/errors equal those of the same session alone; generated UUIDs are distinct over all of them |")
t=t.replace("| C25 | sessions (embedded and REPL) where inputs fail to compile or fail at run time at any depth |","| C25 | sessions (embedded and REPL) where inputs fail to compile or fail at run time at any depth: 33 kinds of failing input, each followed by later inputs that use what it touched |")
t=t.replace("| C26 | every operator, method and library function on receivers, arguments, counts, callbacks of every kind |","| C26 | every operator, method and library function on receivers, arguments, counts, callbacks of every kind; a share of the calls is signature-aware (right kinds, boundary values, indices about the receiver's length) so that they get behind the argument checks |")
t=t.replace("| C01 | generated programs over all statements, classes, closures, natives and data types (plus the repository's own tests/examples),","| C01 | generated programs over all statements, classes, closures, natives and data types (plus the repository's own tests/examples, and peers that accept and answer the program's connections),")
t=t.replace("Assumptions per property are","A run whose log overflows ends with `LOGFULL`; it is judged for crashes and sanitizer reports only, never by an oracle that needs the\nwhole history.\n\nAssumptions per property are",1)
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d)); rows.append((d,m['property'],m['needs'].split('\n')[0]))
tab="## Planted bugs and the checks that catch them\n\nEach is in seeded/ with patch, demonstration and meta.json; every one builds, passes the stable tests, and is caught by the quick\nrun of the property it breaks. Ones missed at first led to a stronger generator (C01 peers, C03 any-block preemption, C16 options,\nC25 failing assignments, C26 index arguments). Mutation runs (dropped statements, inverted error branches, off-by-ones, lost\n`push`/`free` in every file behind a property) were used the same way.\n\n| planted bug | caught by | needs |\n|-|-|-|\n"+''.join('| %s | %s | %s |\n'%r for r in rows)+"\n"
if '## Planted bugs' in t:
    a=t.index('## Planted bugs'); b=t.index('## Skipped'); t=t[:a]+tab+t[b:]
else: t=t.replace('## Skipped',tab+'## Skipped')
open(p,'w').write(t)
