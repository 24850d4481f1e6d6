import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
C=json.load(open(root+'/checks.json'))
S={}
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json')); S.setdefault(m['property'],[]).append((d,m))
how={
'C01':("AlignText, AlignRope, AlignMixed, AlignLong, AlignIdempotent","The oracle is the text with the spaces the statement asks for, made from the display width that a fresh one-column table reports for the same text (`measure`), so the alignment is compared with the width used elsewhere in the package and not with a second width function."),
'C02':("EscapeOne, EscapeTwo, EscapeMany","The text around the sequences is cut at a cluster boundary by the reference segmentation (`harness/h/seg.go`); the width of the text with the sequences in it must be that of the text without."),
'C03':("WidthStable, WidthMany, WidthEquals, WidthBytes, WidthRepeat, WidthLong, WidthAlike","Widths measured twice, in different orders and between other texts must agree, and equal `runewidth.StringWidth` where no introducer occurs. The LRU cache code (go-lru and container/list) is executed symbolically too; `WidthLong` drives it through eviction, `WidthAlike` through keys that differ in one place only."),
'C04':("ColumnMax, ColumnMaxText, BigHistory","The operations of the history and their arguments are symbolic; a model of a plain maximum per name runs beside the table and is compared after every step."),
'C05':("FormatItem, FormatItemBasic, BigFormat","Getters log their calls and fail where a symbolic flag says so; values, texts, separator are symbolic byte strings. Compared are the texts, the error, and the calls made."),
'C06':("AlignRow, AlignRowReal, BigRow","Alignments that record the cell and the width they were given; the widths are symbolic."),
'C07':("Header, HeaderLong, BigHeader","The header is recomputed from titles, short titles, and the measured widths."),
'C08':("SpecColumns, TableWidthSum, BigSpec","A list of the additions is kept beside the specification; table widths are summed in 64 bits."),
'C09':("MergeLayout, MergeNil, MergeReal","Each cell starts with a tag of its own, each column's alignment puts its result in that column's brackets. The text written must be one of the layouts of all tags in order (`layout`), which fixes order, completeness, joins, separators, and the equal item counts."),
'C10':("MergeLayout, MergeNil, MergeReal","As C09, with the column-major layouts."),
'C11':("MergeMaxWidth","The alignment returns a token per call, so the lines are concrete over tokens and all widths stay symbolic; the line's width is the sum of the widths asked for (or the cell's own, if wider) and the separators' display widths."),
'C12':("MergeLineUp","Same set-up; the start columns of the k-th tokens of all lines must be equal."),
'C13':("MergeFill","Same set-up; regular mode's count against the largest that fits by the statement, computed without division, and compact's line count against regular mode's."),
'C14':("MergeEnds","Cells of any width (wider than recorded included), any maximum. A panic is a violation; a run past the step bound is replayed natively and is one when it does not end in 6 s and then 30 s."),
'C15':("MergeFault","A writer that fails from the k-th line on (k symbolic) and accepts what comes before; compared with the lines of a run without failure. It judges by lines, so code that writes a line in pieces is fine."),
'C16':("RuneWidth, RuneWidthLUT, RuneWidthGlobal","One symbolic 32-bit value against a reference with the tables of the pinned release (`ref.go`), with the table built and rebuilt under every order of options. The 557056-entry build loop is executed."),
'C17':("StringWidthSum, StringWidthSelf, StringWidthDefault, StringWidthLong","The reference segmentation (C19's) and `RuneWidth` (C16's subject)."),
'C18':("Partition, StepPartition","Concatenation, lengths, decoded runes, end reports."),
'C19':("Boundaries, StepBoundaries","GB3..GB999 written over property classes, with the Unicode 14 properties (`ucd.go`, generated once and compared with Python's unicodedata)."),
'C20':("CellWidth, CellWidthAfter, CellWidthVS","The documented list, over the same properties."),
'C21':("Carried","Two runs of the code over the same text: state carried, state unknown."),
'C22':("Locale, LocaleParts, LocaleOrder, LocaleAgain","The statement's rule, written without regular expressions."),
'C23':("StartVar, StartLocale","The package's initialisers run on the symbolic environment (natively: the replay program sets the environment and re-executes itself)."),
'C24':("Race","See 'Interleavings' below."),
'C25':("PureMerge, PureRows, PureWidths","Copies of the rows, widths and columns are taken before and compared after; rows share one backing array and have spare capacity, so a write past or into a row shows; maps and returned rows are overwritten by the caller and the table's answers compared with a model."),
'C26':("ClusterWidth","The reference segmentation picks the texts that are one cluster; the documented rule is written over the property classes."),
'C27':("CondIndep, IterIndep","Two conditions (and the default one) against the reference of C16 after each kind of interference; two iterators, their interleaving chosen symbolically, against what each yields alone."),
}
o=[]
w=o.append
w('''# Solver-based checking of ilius/go-table

Everything is decided by one engine (`engine/`, Go), a symbolic executor for Go on `golang.org/x/tools/go/ssa`, with z3 as
the solver. `./check.sh ID` builds the engine, builds the harness against `/repo`'s working tree, loads the SSA form
of that tree from source and explores the property's jobs (`checks.json`, written by `tools/gen_checks.py`).
Nothing of `/repo` is copied, cached or patched; there are no hooks in `/repo`.

## How a property is decided

A property is one or more ordinary Go functions in `harness/h`. They take inputs from package `v` (`v.Rune`, `v.Int`,
`v.Bytes`, `v.Choose`...), call the public API of `/repo`, and `v.Assert` an oracle. The same functions run in two ways:

* symbolically: the engine executes the SSA of harness and repository (and of `go-lru`, `container/list`, `strings`,
  `utf8`, `sort`, ... as far as they are not modelled). Inputs are solver variables. A branch on a symbolic condition
  is followed on every side the solver finds feasible. At an assertion the solver is asked for an assignment of the
  inputs that satisfies the path condition and breaks the assertion; `unsat` means that it holds for every
  value on that path. All paths together cover every value within the bounds.
* natively: `harness/cmd/replay` runs the same function, compiled against `/repo`, on a concrete assignment. Every
  counterexample of the solver is replayed so, and only one that fails there is reported (VIOLATION, with the assignment as
  replay file: `./check.sh replay FILE`). Besides, for each job up to 12 completed paths are replayed on an
  assignment of theirs and their observations (`v.ObsStr`, `v.ObsInt`) compared with the symbolic ones: this
  validates the translator on the code at hand (`translator_mismatches` in the evidence; 0 everywhere).

A check never raises an alarm on the solver's word alone. What the engine cannot decide (an unsupported construct, a bound)
is counted, named in the output ("not decided: ...") and in the evidence, and makes `exhaustive` false; it is no violation.
A path that ends that way is still replayed natively on one assignment. Exit 2 only if nothing at all could be explored
(a build failure, say).

Jobs run eight at a time. A job that is not explored to the end within its share of the time gives way while others wait
and goes on afterwards; on cores that would idle, such a job also runs with numeric inputs narrowed to -2..24 (a loop
that pads space by space then has few unrollings). When the heap passes 14 GB the job that has run longest ends ("memory
bound reached"). On the current tree all quick jobs end within their share.

### Terms and solver

* Bit-vector terms, hash-consed, with interval bounds. A term that depends on one variable only is kept as a partition of
  its range into intervals (`OPW`), so a binary search through a table of 700 character ranges over a symbolic
  rune becomes one piecewise function. Functions without side effects whose argument is one variable are summarised so
  (`summaries_over_one_variable`); sums of paths through side-effect-free calls are merged into one value.
* Runes enter queries by class: a variable that is only used through piecewise functions is replaced by the partition's common
  refinement, which keeps queries small. Branches decided that way are sampled against z3, and assertions are always put to z3
  (up to 20000 per job; beyond, interval reasoning alone may discharge one).
* Arithmetic over widths, counts and margins goes to z3 as linear integer arithmetic where ranges prove that no
  operation wraps (wrapping ones become explicit `mod`), and as bit-vectors otherwise (`VERIF_NO_INT=1` uses
  bit-vectors only: used to cross-check the two).
* `strings.Repeat` with a symbolic count gives a rope: texts are concatenations of bytes, runes and repetitions.
  The display width of a rope is the width function's value on the rope with 1 and 2 repetitions, extended linearly, and
  checked at 300 repetitions on the code at hand; if the three do not lie on a line the count is decided path by path instead.
  Ropes are compared from both ends, so equal pieces cancel before the solver is asked; prefix and suffix tests work likewise.

### Models (everything else is executed from source)

`regexp` (a matcher with Go's leftmost-first semantics run on `regexp/syntax`'s parse of whatever pattern the code has),
`strings.Builder`/`bytes.Buffer`, `strings` primitives on ropes, `fmt.Fprint*/Sprint*/Errorf` for the verbs used,
`utf8` decoding and encoding, `os.Getenv`/`LookupEnv`, `sync` and `sync/atomic`, maps (iteration explores every order
when it can matter), slices with the capacities of Go's growth rule (aliasing through `append` is seen), `reflect` only
as opaque values. Memory is unbounded.

### Bounds and texts

Texts are sequences of units, each one any code point or any byte that does not begin a valid encoding (`bad` is the
bit mask of the latter); every byte string is a sequence of such units, so "n units" covers all texts of that many.

Code may behave differently on large inputs (a buffer of fixed size, a fast path by length). Fully symbolic inputs of
that size are out of reach, so besides the fully symbolic small ones there are jobs that embed symbolic parts in large
fixed surroundings: texts of arbitrary units between fixed texts of up to some thousand bytes (`pad`), escape sequences after
many others, tables with tens of columns, lists of up to 40 items of fixed widths with a symbolic maximum width, histories of
more than a hundred formatted items. For those sizes the claim covers only the values that are symbolic there.

### Interleavings (C24)

The two goroutines' calls are executed one after the other with every memory access, lock and atomic operation
recorded. For each pair of conflicting accesses the solver looks for an order of all recorded events that respects
program order, lock exclusion and release-acquire order of atomics and places the two next to each other. A solution
is a candidate; it counts when the Go race detector reports it in the native run (which calls both in real goroutines,
several times). On the current tree every query is `unsat`.

## Properties
''')
for p in props:
    i=p['id']; fn,t=how[i]
    w(f"### {i} {p['title']}\n")
    w(f"Harness: {fn}. {t}\n")
    w(f"Bounds: {C[i]['bounds']}. Outside: {C[i]['outside']}.\n")
    w("Caught here: "+"; ".join(f"`{d}` ({m['needs']})" for d,m in S.get(i,[]))+".\n")
w(open(root+'/tools/design_tail.md').read())
open(root+'/DESIGN.md','w').write('\n'.join(o))
