"""Regenerates DESIGN.md from section 3 on, from MANIFEST.json, properties.jsonl, evidence/, known_findings.json and seeded/.  Run after all quick checks."""
import json
rows={
'C01':("extended-precision (80-bit) recursion that couples spin 1/2 to ell-1/2; shares no formula with the code","Every regime of (|Ra|,|Rb|) x phases x all 93665 (ell,mp,m); vectorised-over-rotors form, scalar and Euler forms","The tests compare about a dozen random rotors up to ell=8 with formulas, and only the R-form."),
'C02':("none for values - only the group table and matrix algebra","Cayley graphs of the binary octahedral and icosahedral groups (each edge = a product of rotors), words over generic / near-pole generators; all 65 ell","Tests use a few random pairs up to ell=8 and integer ell."),
'C03':("one canonical call per element","All calling forms; all (ell_min,ell_max); all sequences of <=3 ell values; all ordered pairs / triples / permutations of index sets; dtypes, containers, layouts; rotor arrays of 15 shapes x 8 layouts and of every size next to a power of two or a round number (internal chunking)","Tests use contiguous arrays and sorted full ranges."),
'C04':("the definition of validity","All (2ell,2mp,2m) of a box x nine call forms x both settings of the switch; every placement of invalid rows among valid ones; all histories of switching and calling","Tests check two or three invalid triples."),
'C05':("C01's oracle, times the documented factor","As C01, for every s in -34..34","Tests compare with a few published values."),
'C06':("canonical single-rotor call","Shapes, layouts, sizes next to powers of two, all ordered pairs/triples of (ell,m), Modes.evaluate for spins x ell_max x shapes of modes x shapes of rotors","Tests use one shape each."),
'C07':("exact integer arithmetic (Racah sum, Python integers)","All sextuples with j<=9 incl. invalid ones; all valid ones up to 18; every boundary configuration (stretched, degenerate, extreme m) at j up to 450 and 1500; everything with j2, j3<=24 (thorough 40) by the certificate of mc/threej.py (three-term recurrence, normalisation, sign)","Tests compare a few tables."),
'C08':("as C07","All ordered pairs and triples of calls on one calculator, sizes from just enough to much larger, interleaved calculators; every call with j2, j3<=60 (100) on a reused calculator, its workspace as left by the previous call or filled with NaN, judged by certificate","Tests use fresh calculators."),
'C09':("Python lists","All ell_min<=ell_max<=64 and every index; half-integer ranges; every size up to 20000 for deduction; theta_phi for sizes to 400; the wedge of H","Tests sample ranges up to 8 and never the deduction of impossible sizes."),
'C10':("plain record (array, s, ell_min, ell_max) per object, with explicit sharing","All constructor forms; all sequences of <=3 derive/modify operations over 19 (Modes) and 17 (Grid) operations, checking *all* live objects after each","Tests check one operation at a time, never two objects after a modification."),
'C11':("3-j product model on plain arrays, and pointwise values from C05's oracle","All spin pairs and ell ranges, all shapes, scalars of every kind, all sequences of <=3 operations","Tests use random pairs of equal shape."),
'C12':("table of supported operations derived from the documentation","All numpy ufuncs x call/reduce/accumulate/reduceat/outer/at x all pairs of 63 operands, with out=, and all operators; operands snapshotted","Tests try some ufuncs on one object."),
'C13':("ordinary operation on independent copies","Every supported operation x out kinds (fresh with wrong metadata, ndarray, aliasing operand 1/2, overlapping, reversed) and all sequences of <=3 in-place operations; targets are modified afterwards to see that they are independent of the operands","Not tested at all upstream (several defects were found)."),
'C14':("explicit sparse matrices of the operators; finite differences in extended precision","Spins -8..8, ell_max 0..8, 12, 20, 31..40 (past every table), leading dimensions to 4097, every basis mode, all words of <=3 operators; commutators, Casimirs, Leibniz rule","Tests use one random object per operator."),
'C15':("direct summation with C05's oracle","All spins, ell_max, grid sizes (2L+1..2L+4)^2, shapes (leading dimensions to 4097), layouts, conversion words of length <=4","Tests use square minimal grids."),
'C16':("plain numpy arrays + spin rules","All spin pairs, shapes, scalars and arrays, sequences of <=3 operations, powers -4..5","Upstream has hardly any Grid test."),
'C17':("extended-precision D recursion at Euler angles","38 angles x n_max 0..32; all sequences of 3 calls on one workspace with 4 initial fillings (incl. NaN); interleaved calculators; shapes, layouts","Tests run one angle and a fresh workspace."),
'C18':("exp(i m theta) in extended precision","781 unit numbers x all M in 0..64; shapes; preallocated outputs","Test: one random vector."),
'C19':("per-mode formulas, pointwise evaluation","All |s|<=9, ell_min 0..7, ell_max<=12, every basis mode; layouts; vectors and constants","Tests: one random vector of modes for ell_min=0."),
'C20':("exact 3-j symbols","All basis-mode pairs and spin pairs in -4..4; all ell ranges; all pairs of 11 truncators x explicit truncators x call forms","Tests: ell_min=0 or |s|, no truncators combined."),
'C21':("the same call in a fresh process","All ordered pairs of 315 calls (71 functions), all triples within a function, argument objects reused with new contents (all of them, and each one alone); results changed by the caller afterwards","Tests never repeat a call with other arguments in between."),
'C22':("the sequential results","See section 1: every preemption point of every pair of calls with conflicting or shared state","No concurrency tests."),
'C23':("exact integers / rationals","Every table entry, integer and half-integer","Tests use tolerances of 1e-5 for most entries, and the internal doubled-index functions."),
'C24':("none: functions of the library against one another and against quaternion products","All words of <=2 (3) rotations over 7 rotors (poles and near-poles included) x spins -3..3 x ell_max<=6 (12): values, grids, norms; the addition theorem for every (s, ell) up to 32; 14 operations, products, left operators, vectors; D assembled from HCalculator, quaternion_angles and complex_powers","Tests check each module against its own formulas; the conventions of different modules are compared for a few random rotors at most."),
}
m={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
P={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); P[d['id']]=d
out=[]
for k,(o,e,t) in rows.items():
    ev=json.load(open(f'/verif/evidence/{k}.json'))
    out.append(f"### {k} {P[k]['title']}\n\n* Oracle: {o}.\n* Enumerated: {e}.\n* Beyond the tests: {t}\n* Cost (quick): {ev['coverage']['states']} states, {ev['coverage']['transitions']} transitions, about {round(ev['wall_s'])} s on 8 cores.\n")
S3='\n'.join(out)

import json,glob,os
out=[]
out.append('''
## 4. Outside the domain

Behaviour that is documented oddly, or not documented at all, about which no claim is made (a change there is not reported):

* `np.absolute(Modes)` is elementwise although a comment says L2 norm; adding Modes of different spin through the operator
  raises TypeError, through the method ValueError; both count as refusals.
* The `Modes` constructor views the caller's complex array and zeroes its entries below |s|, by design; read-only input that
  needs this is refused.  Integer input and 0-d input to the constructor are unclaimed.
* `Grid.modes()` without ell_max uses the larger of the two dimensions: the round trip is claimed for
  2 ell_max+1 <= min(n_theta, n_phi).  `Modes.grid` needs ell_max >= 1 (a limit of spinsfast).
* `grid ** 0.5` is numpy's sqrt and allowed for even spin weight; a NaN exponent is unclaimed.
* The documented Lie-derivative definition of R+- differs by an overall sign from the documented action on harmonics; C14
  claims the latter.
* SWSH with one rotor and a bare `[ell, m]`, an array of rotors with `[[l, m]]`; index arrays of SWSH that are not int64 or
  not writeable; `LM_deduce_ell_max(0, ...)`; ell that is neither integer nor half-integer; ell_min > ell_max.
* `clebsch_gordan` with negative j3; `truncate_ell` below |s|, or (returns self) at ell_max or above.
* Slicing the last axis of Modes keeps stale metadata; binary operations copy the first operand's extra metadata.
* `ethbar_inverse_NP` leaves the modes without inverse unchanged.
* Empty cos(beta), F-ordered `zpowers`; `quaternion_angles` at the poles (claimed away from them, in C24).
* An `out=` of a larger broadcastable shape is written before the ValueError.
* `rotate` (NotImplementedError), `associated_legendre` are unfinished.

## 5. Defects found and repaired

The checks found these on the base tree; each is repaired by one `fix:` commit in /repo (listed in known_findings.json).
The checks fail again when one of them is reverted.  No finding is left unrepaired.
''')
for s in json.load(open('/verif/known_findings.json'))['fixed']:
    s=s[len('fixed: property='):]
    out.append('* %s, %s: %s'%(s.split()[0],s.split()[1],' '.join(s.split()[2:])))
out.append('''
## 6. False alarms corrected

Each of these was a wrong expectation in a check; the check or the property was corrected, nothing was listed as a finding:
C12: `ufunc.at` with isfinite-like ufuncs, powers 0.5 of even-spin grids, NaN exponents; C15: the constructor refuses
read-only arrays; C21: the constructor's zeroing of weights below |s| is a documented effect on its argument, and results
of BLAS/FFT code vary in the last bit with the alignment of memory (compared to a few ulp instead of bit for bit);
C22: threads that hold a lock while preempted are let run instead of reported.

## 7. Planted bugs, and what catches them

`seeded/` and `seeded_more/` hold the changes made to test the machinery (the same format; a full `vcheck` needs an hour for the
checks and seven to eleven minutes for each bug, and has two hours, so only four are in `seeded/`).  Each passes the stable tests, and its demo fails only with it.

| bug | property | what breaks | needs | caught by |
|---|---|---|---|---|''')
res=json.load(open('/tmp/w/caught.json')) if os.path.exists('/tmp/w/caught.json') else {}
for d in sorted(glob.glob('/verif/seeded/*')+glob.glob('/verif/seeded_more/*'),key=os.path.basename):
    m=json.load(open(d+'/meta.json')); b=os.path.basename(d)
    out.append('| %s | %s | %s | %s | %s |'%(b,m['property'],m['what_it_breaks'],m['needs'],res.get(b,m['property'])))
out.append(open('/verif/tools/campaign.md').read() if os.path.exists('/verif/tools/campaign.md') else '')
TAIL = '\n'.join(out)

old = open('/verif/DESIGN.md').read()
head = old[:old.index('## 3. ')]
open('/verif/DESIGN.md', 'w').write(head + '## 3. Properties and how each is decided\n\n' + S3 + TAIL.rstrip() + '\n')
