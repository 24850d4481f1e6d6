#!/usr/bin/env python3
"""Writes checks.json: per property the jobs (harness function, parameters) of
the quick tier and the further ones of the thorough tier, with the bounds."""
import json, os

C = {}
def check(pid, bounds, outside, assumptions, quick, thorough, qs=240, ts=780):
    C[pid] = dict(quick=quick, thorough=thorough, quick_s=qs, thorough_s=ts, bounds=bounds, outside=outside, assumptions=assumptions)

def j(fn, time=90, race=False, **params):
    d = dict(fn=fn, params={k: v if isinstance(v, list) else [v] for k, v in params.items()}, time=time)
    if race:
        d['race'] = True
    return d

R = lambda n: list(range(n))
PADS = R(22)[1:] # the fixed texts around the arbitrary units (padOf in seg.go)
PAD = " among fixed texts of up to 1100 characters (letters, wide, combining, joined, flags, jamo, invalid bytes, controls)"
STUBS = ["regexp is executed by a model of Go's leftmost-first matching on the parsed pattern; strings.Builder, fmt.Fprintln/Sprintf/Errorf, os.Getenv and sync primitives are modelled; maps iterate in every order",
         "slices have the capacity Go's growth rule gives them; memory is unbounded"]
ROPE = "on a text whose length is symbolic the width function is taken to be linear in the number of repetitions while the result fits its type (confirmed on 1, 2 and 300 repetitions of the code at hand)"

check('C01', "texts of up to 3 units (thorough: 4), each any code point or any invalid byte; 1 arbitrary unit" + PAD + "; 2 arbitrary code points among fixed wide, combining, joined and escape texts; texts of 0..65535 equal letters; single texts of 65540 letters; every target width 0..65535; left, right, centre",
  "longer texts of arbitrary content", STUBS + [ROPE],
  [j('AlignText', n=R(3), al=R(3)), j('AlignText', n=3, al=2), j('AlignText', n=1, bad=1, al=R(3)), j('AlignText', n=1, al=[0, 2], pad=PADS), j('AlignText', n=1, bad=1, al=1, pad=[2, 4, 11, 13]), j('AlignText', n=2, bad=[1, 2, 3], al=R(3)), j('AlignText', n=3, bad=R(8)[1:], al=[0, 1]),
   j('AlignRope', al=R(3), max=65535), j('AlignIdempotent', n=[1, 2], al=R(3)),
   j('AlignMixed', a=R(9), b=[0, 3, 5], al=[0, 2]), j('AlignMixed', a=[1, 5], b=[2, 8], al=1),
   j('AlignLong', unit=R(5), len=[127, 256, 300], al=[0, 1, 2])],
  [j('AlignText', n=3, al=[0, 1], time=200), j('AlignText', n=2, al=[0, 1, 2], pad=PADS, time=200), j('AlignText', n=4, al=[0, 1, 2], time=600), j('AlignText', n=4, bad=R(16)[1:], al=2, time=300),
   j('AlignLong', unit=0, len=[65534, 65535, 65536, 65540], msteps=400, al=[0, 2], time=200), j('AlignLong', unit=2, len=[32767, 32768, 33000], msteps=400, al=1, time=200),
   j('AlignMixed', a=R(9), b=R(9), al=R(3))])

check('C02', "one escape sequence of either introducer, 0..2 intermediate characters, 14 parameter shapes with any digits, any final, between two texts of up to 1 code point (thorough: up to 2 on one side); two sequences around up to 3 code points; 2..4 sequences in a row, 12, 30 or 90 around fixed characters; one sequence and up to 2 code points" + PAD,
  "longer texts, more than 8 parameters, more than 2 intermediates; insertion in front of a stray extending or spacing mark",
  STUBS + ["the surrounding text holds no introducer of its own"],
  [j('EscapeOne', intro=[0, 1], ni=[0, 1, 2], shape=R(14), n1=1, n2=1), j('EscapeOne', intro=[0, 1], ni=[1, 3], shape=[0, 2, 4, 6, 10], n1=[0, 1], n2=[0]), j('EscapeOne', intro=[0, 1], ni=[1], shape=[1, 3, 5], n1=0, n2=1),
   j('EscapeTwo', intro=[0, 1], ni=1, shape=[0, 2, 7], intro2=[0, 1], ni2=[0, 1], shape2=[0, 6], n1=1, n2=[0, 1], n3=[0, 1]), j('EscapeMany', k=[2, 4], shape=[0, 1, 2, 6]), j('EscapeMany', k=[12, 30], shape=[0, 1, 2, 6]), j('EscapeMany', k=90, shape=[2, 12]), j('EscapeOne', intro=[0, 1], ni=[1, 20], shape=[0, 6], n1=0, n2=0, pad=PADS), j('EscapeOne', intro=[0, 1], ni=1, shape=2, n1=1, n2=1, pad=[1, 2, 4, 5, 7, 11, 12])],
  [j('EscapeOne', intro=[0, 1], ni=1, shape=[0, 2, 6, 9], n1=2, n2=1, time=200), j('EscapeOne', intro=[0, 1], ni=1, shape=[0, 2], n1=1, n2=2, time=200),
   j('EscapeTwo', intro=[0, 1], ni=[0, 1, 2], shape=[1, 3, 4, 5], intro2=[0, 1], ni2=[1, 2], shape2=[2, 10, 12], n1=1, n2=[0, 1], n3=1), j('EscapeMany', k=[6, 9], shape=R(8), time=200), j('EscapeOne', intro=[0, 1], ni=1, shape=[1, 4], n1=1, n2=1, pad=PADS, time=200)])

check('C03', "two or three texts of up to 2 code points measured and measured again; one text of up to 3 units (thorough: 4), any code point or invalid byte, against the string width; 1 or 2 units" + PAD + "; 3 texts (thorough: 4) of up to 2 characters in any order; a history of 10100 distinct texts with arbitrary characters before and after; long texts of 300, 5000, 33000 and 40000 units; pairs of texts of 10..1100 letters that differ in one arbitrary character at 5 places or in length",
  "longer arbitrary texts, other histories longer than 4", STUBS,
  [j('WidthStable', n1=[1], n2=[1, 2]), j('WidthStable', n1=2, n2=1), j('WidthEquals', n=[1, 2, 3]), j('WidthBytes', n=1, bad=1), j('WidthBytes', n=[1, 2], pad=PADS), j('WidthBytes', n=1, bad=1, pad=[2, 11, 13]), j('WidthBytes', n=2, bad=[1, 2, 3]), j('WidthBytes', n=3, bad=R(8)[1:]),
   j('WidthMany', k=[2, 3], n=[1, 2]), j('WidthRepeat', unit=R(7), len=[200, 300]), j('WidthRepeat', unit=0, len=5000), j('WidthRepeat', unit=0, len=40000, msteps=400), j('WidthRepeat', unit=2, len=33000, msteps=400), j('WidthLong', n=10100, msteps=400), j('WidthAlike', n=[10, 40, 70, 300], d=[0, 1], pos=R(5)), j('WidthAlike', n=[70, 300, 1100], d=50, pos=[1, 4])],
  [j('WidthEquals', n=4, time=300), j('WidthStable', n1=2, n2=2, time=300), j('WidthBytes', n=4, bad=R(16)[1:], time=200), j('WidthMany', k=4, n=[1, 2], time=300),
   j('WidthRepeat', unit=[0, 6], len=[65534, 65535, 70000], msteps=900, time=300), j('WidthRepeat', unit=[2], len=[32767, 32768], msteps=900, time=300), j('WidthRepeat', unit=R(7), len=5000, msteps=400, time=200), j('WidthLong', n=[20300], msteps=900, time=400)])

check('C04', "histories of up to 3 operations on 1 column, 2 operations on 2 columns (thorough: 4 and 3), each formatting an item with cells of width 0..3 or 255..257, 65535 or updating with any 16-bit width, same-named columns and other uses (header, row alignment, merging, plain formatting) in between included; texts of 1 arbitrary code point; up to 30 columns and 400 operations of fixed widths with two arbitrary ones among them",
  "longer arbitrary histories", STUBS + [ROPE],
  [j('ColumnMax', cols=1, k=[1, 2, 3], wide=[0, 1]), j('ColumnMax', cols=2, k=2, dup=[0, 1], use=1, al=[0, 1]), j('ColumnMax', cols=2, k=2, nilval=1), j('ColumnMax', cols=1, k=3, use=1), j('ColumnMaxText', k=2, n=1), j('BigHistory', cols=12, k=8, at=[1, 3, 6]), j('BigHistory', cols=30, k=12, at=[2, 5, 9]), j('BigHistory', cols=3, k=40, at=[4, 28, 37]), j('BigHistory', cols=2, k=400, at=[60, 370], long=1), j('BigHistory', cols=4, k=6, at=[0, 2], same=2)],
  [j('ColumnMax', cols=1, k=4, wide=[0, 1], time=400), j('ColumnMax', cols=2, k=3, dup=[0, 1], time=700), j('ColumnMax', cols=2, k=2, dup=[0, 1], wide=1, time=300), j('ColumnMax', cols=3, k=2, dup=[0, 1], time=400)])

check('C05', "0..3 columns (thorough: 4), any combination of failing getter calls, any byte strings of up to 1 byte (thorough: 2) per value and text; items formatted before and after; 12 and 30 columns with any one call failing, 40 with a text of 400 bytes and a separator of 40; neighbours of one name, an empty name",
  "more columns", STUBS,
  [j('FormatItem', cols=R(4), maxlen=1), j('FormatItem', cols=[1, 2], maxlen=1, again=[1, 2]), j('FormatItemBasic', cols=R(4), maxlen=1), j('BigFormat', cols=12, at=[0, 7]), j('BigFormat', cols=30, at=[17, 29]), j('BigFormat', cols=40, at=[2, 35], long=1), j('BigFormat', cols=[2, 7], at=[0, 1], same=[1, 2])],
  [j('FormatItem', cols=4, maxlen=1, time=300), j('FormatItem', cols=2, maxlen=2, time=300), j('FormatItemBasic', cols=4, maxlen=1, time=300), j('FormatItemBasic', cols=3, maxlen=2, time=300)])

check('C06', "0..3 columns and rows of 0..4 cells, 4 and 5 columns with shorter cells (thorough: all), rows aligned before the widths grew, any 16-bit column widths, recording alignments or none; the package's alignments on arbitrary one-character cells; 12 and 40 columns of any widths; neighbours of one name, an empty name",
  "more columns", STUBS,
  [j('AlignRow', cols=R(4), n=R(5)), j('AlignRow', cols=4, n=[3, 4, 5], short=1), j('AlignRow', cols=5, n=5, short=2), j('AlignRow', cols=[1, 2], n=[1, 2], again=1), j('AlignRow', cols=3, n=3, again=1, short=2), j('AlignRowReal', n=0, al=R(3)), j('AlignRowReal', n=1, al=0, time=120), j('BigRow', cols=[6, 8, 9, 12, 17, 40]), j('BigRow', cols=[2, 4, 7], same=[1, 2])],
  [j('AlignRow', cols=4, n=R(6), time=300), j('AlignRowReal', n=1, al=[1, 2], time=300), j('AlignRowReal', n=2, al=0, time=600)])

check('C07', "1 or 2 columns with titles and short titles of 1 arbitrary code point (thorough: up to 2), titles of any length up to 65535 letters, any 16-bit width, several separators; headers made before the widths grew; 12 and 40 columns of fixed titles, one width arbitrary; neighbours of one name, an empty name",
  "more columns, longer titles of arbitrary content", STUBS + [ROPE],
  [j('Header', cols=0, n=0, m=0), j('Header', cols=1, n=[0, 1], m=[0, 1]), j('Header', cols=2, n=1, m=1), j('HeaderLong', cols=[1, 2]), j('HeaderLong', cols=1, again=[1, 2, 7]), j('BigHeader', cols=12, at=[0, 7, 11], sep=[0, 2, 7]), j('BigHeader', cols=40, at=[1, 33], sep=[1, 8]), j('BigHeader', cols=[2, 7], at=[0, 2], sep=1, same=[1, 2])],
  [j('Header', cols=1, n=2, m=[1, 2], time=300), j('Header', cols=1, n=1, m=2, time=300), j('Header', cols=2, n=1, m=0, time=300), j('HeaderLong', cols=3, time=300)])

check('C08', "up to 4 column additions (thorough: 5) with names from a set of 4; 0..4 columns (thorough: 6), 12, 40 and 300 columns of any 16-bit widths and margin; up to 33 columns of 8 names",
  "longer histories", STUBS,
  [j('SpecColumns', k=R(5)), j('TableWidthSum', cols=R(5), dup=0), j('TableWidthSum', cols=[2, 3, 4], dup=1), j('BigSpec', cols=[6, 9, 12, 17, 40, 300]), j('BigNames', cols=[9, 12, 33], names=[3, 8], at=[1, 8])],
  [j('SpecColumns', k=5, time=300), j('TableWidthSum', cols=[5, 6], dup=[0, 1], time=300)])

MB = "0..5 items (thorough: 7) of 1 or 2 columns, 2 or 3 items of 3, (thorough: 4 of 3), any maximum width in ±2^40 and the extreme integers, any 16-bit recorded column widths, %s; separators of 0..3 bytes, also multi-byte; regular and compact; after other merges on the same table; up to 40 items and 4 columns, 10 items and 8 columns of fixed widths at any maximum width, separators of up to 40 bytes"
def BIG(fn, v, **k):
    return [j(fn, n=[7, 12], cols=1, v=v, c=[0, 1], sep=[1, 7], fix=[1, 4], **k), j(fn, n=20, cols=2, v=v, c=[0, 1], sep=2, fix=[1, 2, 3], **k), j(fn, n=40, cols=1, v=v, c=[0, 1], sep=[1, 3], fix=[2, 4], **k), j(fn, n=9, cols=4, v=v, c=[0, 1], sep=[0, 8], fix=2, **k)] + ([j(fn, n=10, cols=8, v=v, c=[0, 1], sep=1, fix=[2, 4], **k)] if fn != 'MergeLayout' else [])
def MQ(fn, v, **k):
    return [j(fn, n=[0, 1, 2, 3, 4], cols=[1, 2], v=v, c=[0, 1], sep=[1, 3], **k), j(fn, n=5, cols=1, v=v, c=[0, 1], sep=[0, 2], **k), j(fn, n=3, cols=0, v=v, c=[0, 1], sep=1, **k), j(fn, n=[2, 3], cols=3, v=v, c=[0, 1], sep=1, **k), j(fn, n=3, cols=2, v=v, c=[0, 1], sep=1, mw=[1, 2], **k)] + BIG(fn, v, **k)
def MT(fn, v, **k):
    return [j(fn, n=[5, 6], cols=[1, 2], v=v, c=[0, 1], sep=[0, 2, 4, 6], time=300, **k), j(fn, n=7, cols=[1, 2], v=v, c=[0, 1], sep=[0, 1], time=400, **k), j(fn, n=[2, 3, 4], cols=3, v=v, c=[0, 1], sep=[0, 2], time=300, **k), j(fn, n=[8, 9], cols=1, v=v, c=[0, 1], sep=1, time=500, **k)]
for pid, v in (('C09', 0), ('C10', 1)):
    check(pid, MB % "cells of 0..3 characters with recording alignments; the package's alignments on fixed cells, 50 items or 9 columns and cells of 300 characters included, columns of one name", "more items or columns", STUBS + [ROPE],
      MQ('MergeLayout', v, kmax=3) + [j('MergeLayout', n=[2, 3], cols=[1, 2], v=v, c=[0, 1], sep=[1, 2], kmax=3, blank=1), j('MergeLayout', n=3, cols=2, v=v, c=[0, 1], sep=1, kmax=3, pre=1)] + [j('MergeNil', n=[1, 2, 3, 4], cols=[1, 2], v=v, c=[0, 1], kmax=2), j('MergeReal', n=[2, 3], cols=[1, 2], v=v, c=[0, 1], sep=2, cells=2, al=R(4)), j('MergeReal', n=2, cols=1, v=v, c=[0, 1], sep=[1, 3], cells=4, al=[0, 3]), j('MergeExact', n=12, cols=3, v=v, c=[0, 1], sep=[1, 2], al=R(4), wide=60), j('MergeExact', n=10, cols=9, v=v, c=[0, 1], sep=[0, 7], al=[0, 2], wide=150), j('MergeExact', n=50, cols=1, v=v, c=[0, 1], sep=8, al=R(4), wide=4), j('MergeExact', n=6, cols=[2, 4], v=v, c=[0, 1], sep=2, al=R(4), wide=5, same=[1, 2])],
      MT('MergeLayout', v, kmax=3) + [j('MergeNil', n=[5, 6], cols=[1, 2], v=v, c=[0, 1], kmax=3, time=300), j('MergeReal', n=[3, 4], cols=[1, 2], v=v, c=[0, 1], sep=[0, 4], cells=3, al=R(4), time=300)])
GB = MB % "each item's cells at any widths up to the recorded ones"
check('C11', GB, "more items or columns; separators holding line feeds", STUBS + [ROPE],
  MQ('MergeMaxWidth', [0, 1]) + [j('MergeMaxWidth', n=[3, 4], cols=2, v=[0, 1], c=[0, 1], sep=1, pre=1)], MT('MergeMaxWidth', [0, 1]))
check('C12', GB, "more items or columns; separators holding line feeds", STUBS + [ROPE],
  MQ('MergeLineUp', [0, 1]) + [j('MergeLineUp', n=[3, 4], cols=2, v=[0, 1], c=[0, 1], sep=1, pre=1)], MT('MergeLineUp', [0, 1]))
check('C13', GB, "more items or columns; separators holding line feeds; items and separators that are both of zero width", STUBS + [ROPE],
  MQ('MergeFill', [0, 1]) + [j('MergeFill', n=[3, 4], cols=[1, 2], v=[0, 1], sep=1, fits=1), j('MergeFill', n=3, cols=[1, 2], v=[0, 1], sep=1, pre=1), j('MergeExact', n=9, cols=[2, 4], v=[0, 1], c=0, sep=[1, 3], al=0, wide=5, same=[0, 1, 2])], MT('MergeFill', [0, 1]))
check('C14', MB % "each cell of any width up to 65535, wider than recorded included", "more items or columns", STUBS + [ROPE, "a run that neither ends nor writes within the step bound is replayed natively and counts when it does not end within 30 s"],
  MQ('MergeEnds', [0, 1]), MT('MergeEnds', [0, 1]))
check('C15', "0..4 items (thorough: 6) of 1 or 2 columns, the failing write anywhere, any maximum width, cells of 0..2 characters, regular and compact; up to 30 items of fixed widths; 13 kinds of error, returned before, after some or after all bytes of the line or at its newline",
  "more items or columns; writers that write short without an error or fail in other places of a line", STUBS + [ROPE],
  [j('MergeFault', n=R(5), cols=[1, 2], v=[0, 1], c=[0, 1], sep=1, kmax=2), j('MergeFault', n=3, cols=1, v=[0, 1], c=[0, 1], sep=[0, 3], kmax=2), j('MergeFault', n=[7, 12], cols=[1, 2], v=[0, 1], c=[0, 1], sep=[1, 7], fix=[1, 2]), j('MergeFault', n=30, cols=1, v=[0, 1], c=[0, 1], sep=2, fix=4), j('MergeFault', n=[2, 3], cols=1, v=[0, 1], c=[0, 1], sep=1, kmax=1, part=[1, 2, 3]), j('MergeFault', n=2, cols=1, v=[0, 1], c=0, sep=1, kmax=1, err=R(13)[1:]), j('MergeFault', n=7, cols=2, v=[0, 1], c=[0, 1], sep=7, fix=2, part=[1, 2, 3], err=[4, 7])],
  [j('MergeFault', n=[5, 6], cols=[1, 2], v=[0, 1], c=[0, 1], sep=[0, 2], kmax=2, time=400)])

check('C16', "every 32-bit value, all four option combinations; tables built once, rebuilt after every option change (thorough: two changes), the package-wide table built once or twice, the package's flags changed before or not",
  "longer sequences of rebuilds", STUBS + ["the character tables of the pinned release are the reference"],
  [j('RuneWidth'), j('RuneWidthLUT', e=R(4), steps=0, msteps=400), j('RuneWidthLUT', e=R(16), steps=1, msteps=400), j('RuneWidthGlobal', twice=[0, 1], set=[0, 1], msteps=400)],
  [j('RuneWidthLUT', e=R(64), steps=2, msteps=800, time=300)])
check('C17', "texts of up to 3 units (thorough: 5), each any code point or invalid byte, all options, with and without the lookup table (2 units); 300 and 9000 equal ASCII characters; 1 or 2 arbitrary units (thorough: 3)" + PAD,
  "longer arbitrary texts", STUBS,
  [j('StringWidthSum', n=[0, 1, 2, 3], e=R(4)), j('StringWidthSum', n=1, e=[4, 5, 6, 7]), j('StringWidthSum', n=3, e=[2], bad=R(8)[1:]), j('StringWidthSum', n=1, e=R(4), bad=1), j('StringWidthSum', n=2, e=[0, 1, 3], bad=[1, 2, 3]), j('StringWidthSelf', n=[1, 2], e=R(4)),
   j('StringWidthDefault', n=[0, 1, 2], e=R(4)), j('StringWidthDefault', n=[1], e=R(4), lut=1), j('StringWidthLong', n=[64, 300], e=R(4)), j('StringWidthLong', n=9000, e=2, msteps=400), j('StringWidthSum', n=1, e=R(4), pad=PADS), j('StringWidthSum', n=2, e=2, pad=PADS), j('StringWidthSum', n=2, e=1, bad=[1, 2], pad=[2, 4, 9, 11, 13]), j('StringWidthSum', n=1, e=[5, 6], pad=[2, 11]), j('StringWidthSelf', n=1, e=2, pad=PADS), j('StringWidthDefault', n=1, e=2, pad=PADS)],
  [j('StringWidthSum', n=[4], e=R(4), time=200), j('StringWidthSum', n=5, e=[2], time=400), j('StringWidthSum', n=4, e=2, bad=R(16)[1:], time=300), j('StringWidthSum', n=2, e=[4, 5, 6, 7], time=200), j('StringWidthSelf', n=3, e=R(4), time=200), j('StringWidthDefault', n=2, e=R(4), lut=1, time=200), j('StringWidthSum', n=3, e=[2, 3], pad=PADS, time=200)])
check('C18', "texts of up to 4 units, each any code point or invalid byte (thorough: 5), by iteration and by single steps; 1 or 2 arbitrary units (thorough: 3)" + PAD,
  "longer texts", STUBS,
  [j('Partition', n=R(5)), j('Partition', n=1, bad=1), j('StepPartition', n=1, bad=1), j('Partition', n=[2], bad=[1, 2, 3]), j('Partition', n=3, bad=R(8)[1:]), j('Partition', n=4, bad=[7, 14, 15, 5, 9]), j('StepPartition', n=R(5)), j('StepPartition', n=3, bad=R(8)[1:]), j('StepPartition', n=2, bad=[1, 2, 3]), j('Partition', n=[1, 2], pad=PADS), j('StepPartition', n=1, pad=PADS), j('StepPartition', n=2, pad=[4, 5, 6, 7, 9, 10, 14, 16]), j('Partition', n=2, bad=[1, 2, 3], pad=[2, 9, 11, 13]), j('StepPartition', n=1, bad=1, pad=[4, 9, 13, 14])],
  [j('Partition', n=4, bad=R(16)[1:], time=300), j('StepPartition', n=4, bad=R(16)[1:], time=300), j('Partition', n=5, time=300), j('StepPartition', n=5, time=300), j('Partition', n=3, pad=PADS, time=200), j('StepPartition', n=[2, 3], pad=PADS, time=200)])
check('C19', "every sequence of up to 4 code points; sequences of up to 3 units with invalid bytes; (thorough: 5 code points as far as the time goes); up to 2 arbitrary units (thorough: 3)" + PAD,
  "longer sequences", STUBS + ["the Unicode 14 character properties are a snapshot of the pinned release's tables, compared once with Python's unicodedata"],
  [j('Boundaries', n=4, time=200), j('Boundaries', n=R(4)), j('Boundaries', n=2, bad=[1, 2, 3]), j('Boundaries', n=3, bad=R(8)[1:]), j('StepBoundaries', n=[1, 2, 3]), j('Boundaries', n=[1, 2], pad=PADS), j('Boundaries', n=2, bad=[1, 2], pad=[4, 9, 11, 13, 14]), j('StepBoundaries', n=[1, 2], pad=PADS)],
  [j('StepBoundaries', n=4, time=300), j('Boundaries', n=5, time=740), j('Boundaries', n=4, bad=R(16)[1:], time=300), j('Boundaries', n=3, pad=PADS, time=200)])
check('C20', "every code point alone, before 1 or 2 arbitrary code points of other clusters, and after 1 or 2 (thorough: 3); clusters of up to 3 code points (thorough: 4) ending in the emoji variation selector, up to 40 marks before it; the same" + PAD,
  "longer contexts", STUBS + ["the Unicode 14 character properties are a snapshot of the pinned release's tables"],
  [j('CellWidth', more=R(3)), j('CellWidthAfter', before=[1, 2]), j('CellWidthVS', n=[1, 2, 3]), j('CellWidthVS', n=[1, 2], ext=[7, 17, 40]), j('CellWidth', more=[0, 1], pad=[1, 2, 4, 5, 6, 8, 9, 11, 12, 13, 14, 15, 16, 17]), j('CellWidthAfter', before=[0, 1], pad=PADS)],
  [j('CellWidth', more=3, time=300), j('CellWidthAfter', before=3, time=600), j('CellWidthVS', n=4, time=600)])
check('C21', "texts of up to 4 code points, texts of up to 3 units with invalid bytes (thorough: 4; 5 code points as far as the time goes); up to 2 arbitrary units (thorough: 3)" + PAD,
  "longer texts", STUBS,
  [j('Carried', n=4, time=200), j('Carried', n=R(4)), j('Carried', n=2, bad=[1, 2, 3]), j('Carried', n=3, bad=R(8)[1:]), j('Carried', n=[1, 2], pad=PADS), j('Carried', n=2, bad=[1, 2], pad=[4, 9, 11, 13, 14])],
  [j('Carried', n=5, time=740), j('Carried', n=4, bad=R(16)[1:], time=300), j('Carried', n=3, pad=PADS, time=200)])
check('C22', "every ASCII locale string of up to 12 characters (thorough: 14) in each variable; language of 2 or 3 characters, territory, every known charset with any one character replaced, added or dropped, modifiers; any variable order with locales of up to 3 arbitrary characters; a second call after another locale was set",
  "longer arbitrary strings; NUL, line feeds and non-ASCII characters", STUBS,
  [j('Locale', n=R(13), var=0), j('Locale', n=[1, 5], var=[1, 2]), j('LocaleParts', k=[2, 3], terr=[0, 1], cs=R(15), edit=[0, 3]), j('LocaleParts', k=2, terr=1, cs=R(15), edit=[1, 2]), j('LocaleParts', k=2, terr=1, cs=[1, 13], edit=3, mod=R(7)[1:], m=[0, 1, 2]),
   j('LocaleParts', k=[1, 4], terr=[0, 2], cs=[0, 4], edit=3, dot=1), j('LocaleParts', k=2, terr=0, cs=[1, 5], edit=3, mod=[1, 4, 5], m=1), j('LocaleParts', k=2, terr=1, cs=[1, 5, 13], edit=3, mod=[7, 8, 9]),
   j('LocaleOrder', a=R(9), b=[0, 1, 3, 8], c=[0, 1, 3], unset=[0]), j('LocaleOrder', a=[0, 1, 9, 10], b=[0, 2, 9], c=[0, 1, 9], unset=1), j('LocaleOrder', a=[0, 3], b=[0, 2, 3], c=[0, 3, 5], unset=[0, 1], more=1), j('LocaleAgain', n=0, a=R(6), b=R(6), var=0, var2=[0, 2]), j('LocaleAgain', n=5, a=[0, 1, 3], var=[0, 2], var2=[1, 2], unset=1)],
  [j('Locale', n=[10, 11, 12, 13, 14], var=[0, 2], time=300), j('LocaleParts', k=[2, 3], terr=[0, 1, 2], cs=R(15), edit=R(4), mod=R(7), m=1, dot=[0, 1], time=200), j('LocaleOrder', a=R(11), b=R(11), c=R(11), unset=[0, 1])])
check('C23', "RUNEWIDTH_EASTASIAN of 0..5 arbitrary ASCII characters with 5 locales, set or unset; locales of the usual shape in each variable; widths of up to 2 arbitrary code points right after start-up",
  "longer values; NUL and line feeds", STUBS + ["start-up is the package's initialisers run on the symbolic environment"],
  [j('StartVar', k=R(6), loc=R(5), n=[1], unset=[0, 1]), j('StartVar', k=1, loc=[0, 1], n=2), j('StartLocale', k=2, terr=1, cs=R(15), edit=3, n=1, var=R(3)), j('StartLocale', k=2, terr=[0, 1], cs=[0, 13], edit=0, n=1, var=0), j('StartLocale', k=2, terr=1, cs=[1], edit=3, mod=[2, 3], n=1)],
  [j('StartVar', k=R(6), loc=R(5), n=2, time=200), j('StartLocale', k=[2, 3], terr=R(3), cs=R(15), edit=R(4), mod=[0, 2, 4], n=1, var=R(3), time=200)])
OPS = R(8)
check('C24', "every pair of 9 uses of the package by two goroutines (three alignments, formatting, headers, horizontal and vertical merging, string width, locale and cluster iteration), on separate tables of one or of two specifications, with the cache cold, warm or holding the other's text (thorough: arbitrary one-character texts): every interleaving of the two recorded event sequences",
  "more than two goroutines; interleavings that make a goroutine take another path than it takes when the other has run before it", STUBS + ["two calls run one after the other symbolically; the solver looks for an order of their events, respecting program order and mutual exclusion, with two conflicting accesses adjacent; a finding counts when the race detector confirms it"],
  [j('Race', race=True, f=R(7), g=R(7), warm=[1, 2], shared=1), j('Race', race=True, f=R(9), g=R(9), warm=0), j('Race', race=True, f=[7, 8], g=[0, 3, 7, 8], warm=[3, 7]), j('Race', race=True, f=[5, 6], g=[5, 6], warm=[1, 4], shared=[0, 1], compact=1), j('Race', race=True, f=[0, 1, 2], g=[0, 1, 2], warm=[3, 4, 5]),
   j('Race', race=True, f=[3, 4, 5, 6], g=[3, 4, 5, 6], sv=[1, 2], shared=1, warm=1), j('Race', race=True, f=[0, 1, 2, 3, 5, 7], g=[0, 2, 3, 4, 6, 7], warm=[6, 7])],
  [j('Race', race=True, f=R(9), g=R(9), warm=R(8), shared=[0, 1], compact=[0, 1], sv=R(3), time=100)])

check('C26', "clusters of 2 or 3 arbitrary code points (thorough: 4), alone, before an arbitrary code point of another cluster or another text; 1 or 2 arbitrary code points (thorough: 3) with up to 40 marks, joiners, spacing marks or skin tones after them",
  "longer clusters of arbitrary code points; a text variation selector inside a pictograph's cluster, an emoji variation selector inside any other", STUBS + ["the Unicode 14 character properties are a snapshot of the pinned release's tables"],
  [j('ClusterWidth', n=[2, 3]), j('ClusterWidth', n=[2], more=[1, 2]), j('ClusterWidth', n=3, more=1), j('ClusterWidth', n=1, ext=[1, 2, 7, 40], mark=R(4), more=[0, 1]), j('ClusterWidth', n=2, ext=[1, 17], mark=R(4), more=[0, 2])],
  [j('ClusterWidth', n=4, more=[0, 1, 2], time=300), j('ClusterWidth', n=5, time=600), j('ClusterWidth', n=3, ext=[1, 2, 7, 40], mark=R(4), more=[0, 1], time=200)])

check('C27', "every code point, every pair of option combinations, with and without tables, 7 kinds of interference; two texts of 1..3 code points (thorough: 4 and 3) in every interleaving of the two iterators, other measuring in between",
  "longer histories and texts", STUBS + ["the character tables of the pinned release are the reference"],
  [j('CondIndep', e=R(16), lut=0, op=[0, 3, 5]), j('CondIndep', e=[1, 6, 11, 12], lut=[1, 3], op=1, msteps=400), j('CondIndep', e=[2, 5, 9, 14], lut=[0, 1], op=[2, 4], msteps=400), j('CondIndep', e=[6, 9], lut=0, op=[6, 7], msteps=400), j('CondIndep', e=[0, 7], lut=3, op=[0, 3, 5], msteps=400), j('IterIndep', n1=[1, 2], n2=[1, 2], keep=[0, 1]), j('IterIndep', n1=3, n2=1), j('IterIndep', n1=[1, 2], n2=1, width=1), j('IterIndep', n1=[1, 2], n2=0, same=1)],
  [j('CondIndep', e=R(16), lut=R(4), op=R(8), msteps=400, time=120), j('IterIndep', n1=3, n2=[2, 3], time=300), j('IterIndep', n1=2, n2=2, width=1, time=300), j('IterIndep', n1=4, n2=1, time=300), j('IterIndep', n1=3, n2=0, same=1, time=300)])

check('C25', "1..3 rows of 1 or 2 columns and 4 of 1 (thorough: 5 of 1 or 2), cells of 0..2 characters next to each other in one array, any maximum width and 16-bit column widths, both directions, regular and compact, other printing in between; 20 rows of 1 or 2 and 9 of 6 columns of fixed widths; 1..3 formatted rows of texts of any length; 2 width updates of any values on 2 columns",
  "more rows or columns; longer histories", STUBS + [ROPE],
  [j('PureMerge', n=[1, 2, 3], cols=[1, 2], v=[0, 1], c=[0, 1], sep=1, kmax=2), j('PureMerge', n=4, cols=1, v=[0, 1], c=[0, 1], sep=1, kmax=2, al=1), j('PureMerge', n=2, cols=1, v=[0, 1], c=[0, 1], sep=1, kmax=1, other=1, al=1), j('PureMerge', n=20, cols=[1, 2], v=[0, 1], c=[0, 1], sep=1, fix=[2, 4], other=1, al=1), j('PureMerge', n=9, cols=6, v=[0, 1], c=[0, 1], sep=7, fix=2),
   j('PureRows', n=[1, 2, 3], cols=1), j('PureRows', n=2, cols=2), j('PureWidths', cols=[1, 2], k=[1, 2]), j('PureWidths', cols=[1, 2], k=1, item=1), j('PureWidths', cols=1, k=2, item=1)],
  [j('PureMerge', n=[3, 4, 5], cols=[1, 2], v=[0, 1], c=[0, 1], sep=[0, 2], kmax=2, other=[0, 1], al=1, time=300), j('PureRows', n=4, cols=[1, 2], time=300), j('PureRows', n=3, cols=3, time=300), j('PureWidths', cols=2, k=2, item=1, time=300), j('PureWidths', cols=3, k=2, time=300)])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(C, open(root + '/checks.json', 'w'), indent=1)
open(root + '/checks.json', 'a').write('\n')

props = [json.loads(l) for l in open(root + '/properties.jsonl')]
M = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
old = json.load(open(root + '/MANIFEST.json'))
for k in old:
    if k not in M:
        M[k] = old[k]
for p in props:
    i = p['id']
    if i in C:
        M['checks'].append(dict(property=i, level="model_checking",
            level_note="bounded: " + C[i]['bounds'] + ". Outside: " + C[i]['outside'] + ".",
            technique="symbolic execution of the go/ssa form of /repo's source; z3 decides path conditions and assertions over all values within the bounds; counterexamples replayed on the real code",
            quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i))
json.dump(M, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
