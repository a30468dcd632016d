import json,os
P={}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); P[p['id']]=p
M={c.get('property',c.get('id')):c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
rows=[]
D={
'P01':('explicit / edge / linear schemes: unsorted multipoles, gaps, overlaps, zero prefactors, weights over 16 decades, weights that nearly sum to one; malformed schemes','weighted sums written out in numpy; bin(unbin(x))=x; band edges, effective multipoles, multipole lists; refusal'),
'P02':('flat bands with gaps, requests in any order, exact edges, sampled spectra that do not cover the bands','linear interpolation at the centre, interval membership'),
'P03':('masks of several kinds, spins 0-4, purification of either component, joint ordering, every combination of lmax / lmax_mask / beam length; lmax to 400 (`large`)','default multipole ranges and catalogues (`defaults`); Gauss-Legendre integrals of Wigner-d products (not 3j recursions), Racah formula for purified kernels; element by element'),
'P04':('small grids on which the transform is exact, full bases of skies','exact ensemble mean (sum over all a_lm) of the measured pseudo-spectrum against couple_cell, and of decoupled bandpowers against windows'),
'P05':('workspaces of every kind, including replaced matrices, Toeplitz, FKP','dense numpy algebra: decouple(couple), windows, linearity, noise subtraction, FKP scaling; lmax to 200 (`large`)'),
'P06':('stateful histories (<=9 operations) of update_beams / update_bins / update_coupling_matrix / recompute / write / read (with and without unbinned matrix, old file layout) / refused calls','a workspace freshly built in the final state; every query compared'),
'P07':('weight matrices per pixel (also indefinite, negative), either slot, spins 0-3','reference sum over spin-weighted mask spectra; exact ensemble response; isotropic limit; refusal'),
'P08':('masks, maps, templates (degenerate, tiny, huge, dependent), grids of any orientation, masked or unmasked input, purified, lite','dense least squares with documented tolerance in numpy followed by direct harmonic sums; invariance relations; nside to 64 (`large`)'),
'P09':('E-only / B-only skies on exact grids, masks, templates, lmax different from lmax_mask; cut patches; HEALPix','zero leakage to rounding; transfer of the kept parity; bound on HEALPix'),
'P10':('pairs of fields of any kind, guesses, noise, workspaces','m-averages in numpy; composition of the documented steps, also for FKP / Toeplitz options of the one-call estimator'),
'P11':('quadruples of fields and spectra','narrow-kernel formula with the exact Wigner integrals and windows; exact covariance of white skies; exchange and bilinearity'),
'P12':('histories of curved and flat covariance workspaces','freshly computed object'),
'P13':('HEALPix and CAR grids, patches, flips, back ends, iterations','direct spin-weighted harmonic sums; own Jacobi iterations; metamorphic relations; refusal of unusable grids'),
'P14':('catalogues anywhere on the sphere (poles, repeats, zero weights), randoms, field mask from catalogue, clustering','explicit sums over sources; sign randomisation identity; shot-noise exactly zero for one source; coupling matrix from pair sums'),
'P15':('HEALPix masks, scales from a quarter pixel to 180 degrees','brute-force distances to the nearest masked pixel; symmetries of the pixelisation'),
'P16':('flat masks, shapes and aspect ratios','brute-force distances; direct Fourier smoothing; transposition and rescaling'),
'P17':('fields with templates, any spins, purified, anisotropic partner, iterations','exact ensemble mean over all modes; linearity, exchange'),
'P18':('templates and variance maps','exact ensemble mean over unit-pixel maps'),
'P19':('parameter triples, all spin combinations, covariance; lmax to 300 (`large`)','the published recipe applied to the full matrix by independent code; limits; refusal'),
'P20':('spectra, beams, seeds, grids; multipoles beyond those the pixels resolve (`high`)','full covariance of the amplitudes over 1500 draws (8 sigma); exact linear dependence and seeds'),
'P21':('patches, bands, cuts (also exactly on modes and at zero), beams, spins, purification','mode-by-mode sums over the whole Fourier plane; exact ensemble mean; linear algebra of decoupling'),
'P22':('flat fields with masks, templates, cuts','least squares, direct DFT sums; one-call = steps'),
'P23':('parity-pure skies, purified templates, any geometry','zero leakage, transfer, units, transposition'),
'P24':('fields with templates, cuts, purification','exact ensemble mean over Fourier bases; linearity, exchange'),
'P25':('quadruples of flat fields; very many modes per band','sums over pairs of modes; exact covariance of white skies; symmetry'),
'P26':('histories of flat workspaces and files','freshly built workspace'),
'P27':('spectra, seeds, threads, Nyquist modes, power over many decades','full mode covariance (8 sigma), equality across thread counts'),
'P28':('(a) `catalogue`: documented invalid inputs x generated objects; (b) `fuzz`: 30 kinds of mutation of arguments of every public call; (c) `files`: valid FITS files whose tables and headers contradict each other (every relation between sizes that readers rely on)','a Python exception; process alive; bystanders, defaults and later valid calls as if nothing had happened'),
'P29':('sequences of public calls on shared objects; other array representations (dtype, order, byte order, strides, read-only); thread counts; freed or overwritten inputs','equality with a fresh-state reference; arguments and earlier results unchanged'),
'P30':('histories of default settings mixed with computations; Hermitian matrices with chosen spectra','explicit arguments; Penrose conditions on the kept eigenspace'),
'P31':('combinations of sizes; sequences of (mutated) calls with objects freed in between; damaged files (bits, header cards, missing / duplicated / resized / swapped / contradictory HDUs) followed by every use; the generated cases of every other check','no AddressSanitizer / UBSan report, no dead process, on an instrumented build'),
}
t='\n'.join('| %s | %s | %s |'%(k,*D[k]) for k in sorted(D))
seeds=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    seeds.append('| %s | %s | %s |'%(d,m['property'],m['what_it_breaks']))
fixes=[l for l in open('/verif/known_findings.txt') if l.startswith('fixed:')]
s=f'''# Property-based verification of NaMaster

`properties.jsonl` lists {len(P)} properties (generated by `tools/mkprops.py`), all
claimed. Every one is decided by generated-input search against an explicit
oracle. `run.py PID` decides one property; `props/pXX.py` holds its generators
and oracles; `lib/` the harness and the reference models.

## Machinery

* `lib/build.py` copies `/repo/pymaster/*.py` and compiles `/repo/src/*.c` and
  `namaster_wrap.c` (plain `-O3 -fopenmp`, or with AddressSanitizer and UBSan
  for P31) into `build/<variant>-<content hash>/`. Nothing is written in /repo.
  There is no SWIG here, so the tracked `namaster_wrap.c` is what counts.
* `lib/pbt.py`: a property is a list of `Sub(name, gen, fn, quick, thorough)`.
  `gen` draws a JSON case (sizes, kinds, flags and a data
  seed; bulk arrays are expanded from the drawn seed by numpy, so the case is
  small, replayable and shrinkable). `fn` runs the library through its public
  API and compares with the oracle. `examples` are fixed cases (former
  failures) that are always run. Part of the cases are drawn by Hypothesis,
  which shrinks failures; the rest by `UniformDraw`, which takes the same
  `gen` but spreads its choices evenly (Hypothesis repeats itself and seldom
  meets rare combinations), records them, and has its own shrinker (drop and
  lower recorded choices). `Draw.rare` mixes in unusually large values (many
  bands, templates, iterations, fields, high spins), so that a change that
  only acts above some size is met too.
* `run.py` distributes the cases over 8 worker processes (seeds derived from
  VERIF_SEED, property, sub-check and shard; no database, no deadline), stops
  at the first failure, re-runs the shrunk case alone, and writes
  `replays/PID.json`, `evidence/PID.json` and the VIOLATION line. A worker
  that dies from a signal is a violation, with the case that killed it (re-run
  and shrunk with one forked process per case); SIGKILL and time budgets are
  "inconclusive", never violations; a call longer than 200 s, twice, is a
  hang. Build or import errors exit with 2.
* Workers run with `MALLOC_PERTURB_`: uninitialised memory holds garbage, so
  that results computed from it differ visibly.
* Any exception raised by the library for an input in the property's domain
  is a violation. Only the public API is used: no hooks in /repo, no source
  patterns, no internal names, so refactorings stay quiet.
* Numerical comparisons use bounds derived from rounding (times condition
  numbers where a system is solved), never fitted "typical" differences.
  Statistical checks (P20, P27) use fixed seeds for the library's generator
  and 8-sigma bounds of an exactly known distribution.
* Quick tier: 10-45 s per check (P31: about 130 s), budget 600 s. Thorough:
  10-30 times as many cases with the same generators.

## Properties: what is generated and what it is compared with

| id | generated | oracle |
|----|-----------|--------|
{t}

Why this reaches what the tests cannot: the tests compare with stored numbers
for one mask, one spin pair and one geometry, mostly at the per-cent level.
The ensemble means over complete bases (P04, P07, P17, P18, P21, P24) and the
closed-form references hold to rounding for *every* drawn configuration, so a
wrong sign of an EB term, a transposed index, or a mode on the Nyquist column
shows up as an error of order one rather than as noise.

Bounds: all searches are finite; sizes are small (lmax <= 30 for dense
references, `large` subs to lmax 200-400, nside 64, patches to 200 pixels a
side). Trust: numpy, scipy, healpy/ducc for grid geometry, GSL/FFTW/cfitsio
internals. P29 samples thread interleavings. P31 watches third-party
libraries only at allocation level. The limits of each check are its
`level_note` in MANIFEST.json. No property is outside the reach of the
technique, so `not_applicable` is empty.

## Defects found in NaMaster

{len(fixes)} entries "fixed:" in `known_findings.txt`, each a separate commit in
/repo that keeps the existing tests passing. The weightiest: wrong signs and
kernels in coupling matrices of odd spins, of purified with other spins and of
anisotropic weights (P03, P07); deprojection biases inexact for iterated
transforms, with wrong EB/BE and wrong pixel order (P17, P18); heap overflows
in the Wigner-3j buffers and log-factorial table (P03, P31); processes killed
by GSL errors, long file names, singular matrices, odd band indices (P28);
files that lose multipoles or digits (P06, P26); flat-sky geometry assumed
square (P16, P23); mode -k taken as (-kx,ky) (P21, P22); thread-dependent
simulations (P27); equal seeds giving unequal skies (P20); apodisation missing
neighbours (P15).

One known finding is not repaired: `noise-below-spin` (P14). Auto-spectra of
catalogue fields with spin s are minus the shot noise at multipoles below s,
instead of zero. The stored reference values of the repository's own tests pin
it, so a repair would break them. It is matched by its own sub-check; anything
else P14 finds is still a violation.

False alarms of early versions were corrected in the check or in the
statement of the property, never listed as findings: Fourier modes exactly on
the boundary of two rings may be counted in either (P21, P22); Nyquist modes
of spin fields, which a real map cannot hold, are left out (P27, ensembles of
P21); negative masks are outside P14; templates are either well conditioned or
exactly degenerate (P22); binned matrices with condition numbers above 1e8 are
skipped (P05); catalogue transforms are compared at the accuracy they promise
(P14); limits in time and memory are inconclusive, not violations. Each
check's `assumptions` in its evidence file lists what remains.

## Planted bugs (`seeded/`)

Each is caught (exit 1 and its VIOLATION line) by the check of the property it
is filed under; several by more (b09 also by P04, P08, P10, P17, P18; b28 also
by P31).

| id | property | what it breaks |
|----|----------|----------------|
{chr(10).join(seeds)}

Missed at first, and what was changed:
* cut edge exactly at zero (b22): cuts "from 0", "to 0", "at 0" in P21/P22;
* multipoles above 3 nside of simulated skies: P20 `high`;
* one Nyquist row or a decade of power lost in simulations: P27 even grids and
  "scales";
* absolute floor in pseudo-inverse (b08): templates of tiny amplitude in P08;
* bands that differ only in a lower edge: `band edges` in P28;
* sizes never drawn (more than 5 templates, 60 bands, spin above 4, 6
  iterations): `Draw.rare` tails in 14 checks;
* FKP normalisation on grids whose pixels differ in area: P05 `fkp`;
* multipole ranges left at their defaults: P03 `defaults`;
* n_iter and n_iter_mask of anisotropic weights: P07 `maps`;
* masked-on-input fields in pixels of zero or negative weight: P08, P23, P24;
* dropped validations of file contents (row counts, ELL_MAX, permutations,
  NPIX, rings): `lib/files.py`, P28 `files` and P31 damage kind "contradict";
* the number of refused maps in P13; purified and catalogue operations in the
  call table of P29.

## Mutation campaigns

Besides the planted bugs, about 330 small changes (automatic operators on C
and Python, and hand-written ones per function) were run against the checks of
the property they concern. The survivors were examined one by one and are
equivalent or unreachable: memory leaks, parts never used after they are written (restoring
alm after an inverse FFT, flags stored in flat files but not used), code that
no public call reaches (`_quick` variants, the rescaling of drc3jj), checks
done a second time in Python, ties at exactly equal distances, negative masks.
Robustness the other way was tried with 17 edits that reorder floating-point
operations (sums backwards, angles by atan2, constants factored differently)
across nine source files: all 31 checks stayed quiet on them, as they did for
several seeds other than 1. Comparisons between results that the library may
compute in different orders allow for rounding; bit-for-bit equality is only
asked of values that are copied.

Coverage of the C sources under the checks leaves out only allocation
failures, dead code and that rescaling.
'''
open('/verif/DESIGN.md','w').write(s)
