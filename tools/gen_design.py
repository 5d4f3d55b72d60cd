#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the numbers from the harness source and the planted bugs."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{root}/properties.jsonl')]

# id -> (generated inputs, oracle, bounds and cost notes)
D = {
"C01": ("Histories of up to dozens of operations on three matrices at once: init, reinit, new sizes, single writes, whole rows and columns, row and column insertion, row deletion, fill, identity, copies, duplicates, transposition, and extraction of rows, columns and every diagonal. Shapes 1x1..4x4, indices including out-of-range ones, values from special and random finite numbers.",
        "A two-dimensional array model executes the same history. After every step every element of every live matrix is read and compared, and so is everything that was extracted."),
"C02": ("Histories on several float and byte vectors: init, reinit, writes, fill, copies, duplicates, conversion to a one-column matrix. Lengths 1..4.",
        "A list model, compared in full after each step."),
"C03": ("Sequences of about ninety different calls (every public storage, arithmetic, decomposition and quaternion operation) on operands that are independently uninitialised, or of any shape, with indices and sizes over the whole byte range and finite or non-finite scalars.",
        "A table says for each call, from its arguments alone, whether it must be refused, must succeed or is free. A refused call must leave initialisation, size and elements of all operands as they were; operands that are only read never change; at the end each object must still accept a re-initialisation and a write."),
"C04": ("Arbitrary finite bit patterns, with emphasis on values near the largest and smallest magnitudes, in sequences of every arithmetic, decomposition and quaternion operation.",
        "Nothing stored or returned may be NaN or infinite. For elementary operations the exact result is computed in double precision: an overflowing one must be refused, and one whose partial results all stay clearly representable must not be."),
"C05": ("Operands of every compatible shape (including rectangular products), dense, sparse, integer, tiny and moderate elements, real and integer exponents of either sign, destinations holding unrelated contents.",
        "Double-precision evaluation of the definition, tolerance a few units in the last place of the summed magnitudes. All call forms must agree; operands that are not the destination are compared bit for bit."),
"C06": ("Vectors of length 1..4, dense, sparse, integer and very short ones, lengths on both sides of the library tolerance.",
        "Double-precision evaluation of the definition; direction and length of normalised vectors."),
"C07": ("Well-conditioned matrices times row or column scalings over many decades, permutations, integer matrices, one dominating element, pivots brought down to 1.1 times the tolerance, exactly singular integer matrices, non-square shapes.",
        "Cofactor determinant in double precision. An elimination with running error bound, over every pivot choice that rounding could make, decides whether the library is entitled to call the matrix singular."),
"C08": ("The matrices of C07 with right-hand sides of any sign; singular integer matrices; random rotations and reflections for the adjugate.",
        "Residuals A inv(A) - I, inv(A) A - I, A x - b relative to each column's backward error; refusal and unchanged contents for singular ones; transpose times determinant for the adjugate."),
"C09": ("Products of random unit lower and upper triangular factors with diagonals from 1.5e-4 to 100, integer and dense matrices.",
        "Product and zero pattern of the factors, tolerance relative to |L||U|. A success is required when every pivot, less what rounding can take from it, exceeds 1.1 tolerances."),
"C10": ("Symmetric matrices with a chosen spectrum under random rotations: definite, barely definite (a Cholesky pivot just above the tolerance), indefinite, negative, with a zero row, definite except for one clear asymmetry; non-square shapes.",
        "The spectrum is known by construction. Factor checked for shape, positive diagonal and L L^T = A."),
"C11": ("All shapes m >= n: conditioned, integer, rank-deficient (repeated, null and parallel columns), tiny columns, elements up to 1e8, condition numbers up to 1e5.",
        "Q R = A, R upper triangular, Q^T Q = I, each scaled by conditioning; input unchanged."),
"C12": ("Symmetric matrices with chosen spectra (distinct, tied, opposite, zero) under rotations from none to arbitrary, both modes, budgets 0..1000, scales 0.1..1e7.",
        "A v = lambda v and orthonormality within the stopping tolerance whenever the call succeeds; success is required where convergence is certain. A call that never returns is reported by the supervisor."),
"C13": ("For each predicate a matrix that satisfies it with one element moved by a chosen amount above or below the tolerance; matrices scaled slightly off orthogonality, volume-preserving shears; every shape; matrices and vectors compared with allowed deviations at magnitudes 1e-6..1e30.",
        "The definition evaluated in double precision."),
"C14": ("Rotation matrices of any axis and angle 0..pi, including 1e-6 rad, multiples of pi/8, and angles 0 or 1e-8..0.3 rad short of pi.",
        "Skew matrix of axis times angle, known by construction; exponentiated back; opposite for the transpose; both call forms."),
"C15": ("End points of length 1..4 at a chosen angle (including 0, tiny ones and exactly orthogonal axes), fractions 0, 1, inside, just outside, NaN and infinite.",
        "Formula of the arc in double precision; refused fractions leave the destination alone."),
"C16": ("Quaternions: axis units, pure, real, tiny, random; pairs and triples; components up to 1e8, norms on both sides of the tolerance for the inverse.",
        "Hamilton product in double precision; associativity, identity, norm, conjugation and inverse laws through the library itself; all call forms."),
"C17": ("Real part in [-80,80], vector part of length 0..3000 including multiples of pi/2 and parts around the tolerance.",
        "e^w(cos|v|, v/|v| sin|v|) in double precision; exp(q) exp(-q) = 1."),
"C18": ("Unit quaternions including half turns and axis rotations; vectors of length 1e-15..1e15.",
        "q v q* in double precision; orthogonality, determinant, double cover, homomorphism, both call forms, undoing by the conjugate."),
"C19": ("Unit quaternions with real part from 0.01 to 1, exact half turns about arbitrary axes, small whole components (all rotations of the cube, with exact matrices), identity, tiny rotations; any threshold for the third method.",
        "The quaternion the matrix was made from, up to sign; tolerance grows as the component found by a root gets small; unit norm, non-negative real part, agreement of the three methods."),
"C20": ("Unit quaternions, and pitch of exactly or nearly a quarter turn with any roll and yaw.",
        "Angles recomposed in double precision everywhere (to 6e-3 within a tenth of a degree of vertical pitch), ranges, pitch itself at the poles, opposite quaternions."),
"C21": ("Component histories; quaternions built to belong to a class or to miss it in one component by a clear amount; vectors of other lengths.",
        "Four named slots as a model; the class by construction; refusals leave everything as it was."),
"C22": ("Sequences of configurations (one factor only, all different, mild to wild) and readings of each sensor up to 1e25.",
        "The correction written out in double precision; the configuration read back."),
"C23": ("Interleavings of init, configuration, update, read, with NaN or infinity in any of the twelve parameters or three axes.",
        "A model that ignores every refused call, compared after each step."),
"C24": ("Initial attitudes, calibrations, sampling periods 1e-5..10 s, rates up to 5000 rad/s, histories of up to hundreds of updates (more than 255 in some).",
        "Composition of exact rotations in double precision; splitting and undoing a constant rate."),
"C25": ("Order 0..255, all five method selectors, periods 1e-5..30 s, half angle per step up to 2 rad.",
        "Exact rotation and the analytic truncation bound theta^(n+1)/(n+1)!; an unavailable method leaves the attitude alone."),
"C26": ("Both filters, all modes and gains, histories mixing sensible, huge, tiny, zero, parallel and non-finite measurements.",
        "Finite and of unit length after each update, bit-identical after a refused one."),
"C27": ("Interleavings of valid and invalid initialisations (missing, NaN, infinite argument in any position), updates with missing readings, accessors, on the three filters.",
        "A state model for what must be refused and, for what must work, a fresh filter given only the valid calls."),
"C28": ("Any acceleration direction (near level, inverted, horizontal) and a field at a chosen angle from 0.2 degrees up; magnitudes 2e-4..1e15; previous updates and initial attitudes of all kinds.",
        "The rotation built from the two directions by cross products in double precision."),
"C29": ("Attitudes, rates up to 3000 rad/s, periods 1e-5..10 s, gains and thresholds in [0,1] (and outside), magnitudes 2e-4..1e15, up to seven consecutive updates with refused ones in between.",
        "The published prediction/correction update re-written in double precision with rotations about explicit axes; comparison skipped within rounding of a branch (the rule counts how often not)."),
"C30": ("Stationary measurements, any tilt error including upside down, any heading error including exactly opposite, gains 0.05..1, fixed or adaptive at the reference magnitude, as many updates as convergence needs.",
        "Tilt error sequence, final attitude against accelerometer/magnetometer mode, fixed point."),
"C31": ("Thresholds up to 10, reference gravity 2e-4..1e15, accelerations below, between, above and at the thresholds, in sequences.",
        "The same filter with the equivalent fixed gain, started from the same attitude."),
"C32": ("Calibrations of each sensor, changed between updates; both filters and modes.",
        "The same filter with transparent calibration fed readings corrected in double precision; configurations read back."),
"C33": ("Complex numbers of magnitudes up to the largest, special values, polar forms with any sign and many turns; histories of setters.",
        "Double-precision evaluation; a refusal for overflow is right only when a partial result of the textbook formula may exceed the largest number."),
"C34": ("Every kind of bit pattern; values at, just inside and just outside the bounds; negative deviations; all factorial arguments whose result fits.",
        "Comparison in double precision, exact integer factorial."),
"C35": ("All 256 arguments.",
        "Unit columns, bounded steps, prefix property, differing directions."),
"C36": ("Calls with any combination of causes for refusal, on every type of the library.",
        "The set of causes present, computed from the arguments; the error must be one of them."),
"C37": ("Matrices, vectors and filters with any contents; standard output of the process diverted to a memory file.",
        "Exact decimal rounding of each element to three places, line structure, nothing else printed."),
"C38": ("All bytes and numbers of bits.",
        "The bits written as text and read backwards."),
"C39": ("Sequences of sixteen samples: impulses, pure tones, quarter-integers and random ones, real and complex, scaled from 1e-20 to the largest number.",
        "The sum of the definition in double precision, tolerance from the rounding of angles of up to fourteen turns."),
"C40": ("Pairs of complex numbers of any magnitude up to 1e18, polar forms of many turns, non-finite parts, tiny divisors.",
        "Double-precision evaluation; both forms of each operation; operands compared bit for bit."),
"C41": ("The cases of C34.", "The oracle of C34 (the same code, compiled against the prototype's helpers)."),
"C42": ("A motion (axis fixed, wandering or jumping; step sizes of one magnitude from 1e-4 to 0.15 rad), the readings it causes at any measurement magnitude, gains and thresholds, a start at the truth or away from it.",
        "The simulated attitude in double precision; the allowed error is the sum of angle^3/12 per step plus 2e-6, times 1 + 1/cos(dip), and when converging the steady state of the slower gain."),
"C47": ("The three angles in degrees, now and before, and the period: whole and fractional degrees, multiples of 30, 45 and 90 degrees, many turns, tiny changes, pitches close to a quarter turn.",
        "The reference vectors turned about one coordinate axis after the other; the rate as the sum of the three turns about their own axes seen from the body (no matrix is inverted)."),
"C48": ("One of the 40 properties that need no std feature, then a case of it; harness and library built with default features only.",
        "The oracle of that property."),
"C46": ("Mode, start, gains, thresholds, biases, and one to six updates of which each lacks the acceleration, the field, both or neither.",
        "Refused and unmoved, or the double-precision update (prediction, tilt, heading) without the missing correction."),
"C45": ("A configuration, a pattern of one to eight updates (one in five or six with arbitrary or non-finite readings), the length of the past, and one to four further updates.",
        "A new object with the same configuration, started at the reported attitude, given the same further updates."),
"C43": ("Two filters with equal attitude, rates and accelerations and different fields, field gains, thresholds and calibrations; one to six updates.",
        "The vertical under the other filter's attitude."),
"C44": ("Two to four objects (a fifth of the time copies of the first) with configurations and operations of their own, and the order in which their operations are interleaved.",
        "Each object's history run alone, before; every result is compared bit for bit. One case of 200 runs each history in a thread of its own."),
}
COST = json.load(open(f'{root}/tools/cost.json'))

src = ''.join(open(f).read() for f in sorted(glob.glob(f'{root}/harness/src/checks/*.rs')))
info = {}
for m in re.finditer(r'id: "(C\d+)",\s*quick: ([\d_]+),\s*thorough: ([\d_]+),\s*rule: "(.*?)",\s*assumptions: &\[(.*?)\],\s*run', src, re.S):
    info[m[1]] = (int(m[2].replace('_', '')), int(m[3].replace('_', '')), m[4], re.findall(r'"(.*?)"', m[5]))

py = open(f'{root}/pycheck/measurements.py').read()
t, q = re.search(r'\((\d+) if tier == "thorough" else (\d+)\)', py).groups()
rule = ''.join(re.findall(r'"(.*?)"', re.search(r'RULE = \((.*?)\n\n', py, re.S)[1]))
info['C47'] = (int(q), int(t), rule, re.findall(r'"(.*?)"', re.search(r'"assumptions": \[(.*?)\]', py)[1]))

out = [open(f'{root}/tools/design_head.md').read().rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']
    gen, orc = D[i]
    q, t, rule, ass = info[i]
    out += [f"### {i}. {p['title']}", '', p['statement'], '',
            f"* **Generated:** {gen}", f"* **Oracle:** {orc}",
            f"* **Bounds:** {p['quantifier']['text']}." + (' ' + '; '.join(a[0].upper() + a[1:] if k == 0 else a for k, a in enumerate(ass)) + '.' if ass else ''),
            f"* **Counted as non-trivial:** {rule}.",
            f"* **Cost:** {q:,} cases quick ({COST.get(i, '?')} s on 8 cores, build excluded), {t:,} thorough.",
            f"* **Why tests do not settle it:** {p['why_tests_cant']}", '']
out += [open(f'{root}/tools/design_tail.md').read().rstrip(), '', '## Planted bugs', '',
        'Each was written from the text of a property and the code, confirmed (builds, passes the stable tests, its',
        'demonstration fails with it and passes without it) and run against the check of its property. All are caught',
        'now. Those marked * were missed at first; the check was strengthened because of them.', '',
        '| planted bug | caught by | needs |', '|---|---|---|']
MISSED = set(open(f'{root}/tools/missed_first.txt').read().split())
for d in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    m = json.load(open(d)); b = d.split('/')[-2]
    out.append(f"| {b}{'*' if b in MISSED else ''} | {m['property']} | {m['needs']} |")
open(f'{root}/DESIGN.md', 'w').write('\n'.join(out) + '\n')
