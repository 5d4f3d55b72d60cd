"""C47: the synthetic raw measurements describe the requested motion.

Property-based check of /repo/generate_raw_measurements.py. Cases are generated from VERIF_SEED,
judged against the rotation they stand for, and a failing case is shrunk and written to a replay file.
Exit: 0 held, 1 violation, 2 the script cannot be run here.
"""
import csv
import json
import math
import os
import random
import shutil
import sys
import tempfile
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import standin

ROOT = os.environ.get("VERIF_ROOT", "/verif")
OUT = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
SCRIPT = "/repo/generate_raw_measurements.py"
RECORD = "/repo/build/raw_measurements.csv"
G, B = 9.81, 48.0
NAMES = ["ax", "ay", "az", "gx", "gy", "gz", "mx", "my", "mz"]
RULE = ("angles of the present and previous attitude in degrees and a sampling period are generated; non-trivial: at least two of the "
        "present angles are not multiples of 90 degrees and at least one angle changes")


class Violation(Exception):
    pass


def load():
    try:
        import numpy  # noqa: F401
    except ImportError:
        sys.modules["numpy"] = standin.module()
    with open(SCRIPT) as f:
        code = compile(f.read(), SCRIPT, "exec")
    space = {"__name__": "generate_raw_measurements", "__file__": SCRIPT}
    exec(code, space)
    return space


def turn(axis, angle, v):
    """v turned about a coordinate axis."""
    c, s = math.cos(angle), math.sin(angle)
    i, j = (axis + 1) % 3, (axis + 2) % 3
    w = list(v)
    w[i], w[j] = c * v[i] - s * v[j], s * v[i] + c * v[j]
    return w


def expected(case):
    a = [math.radians(x) for x in case["angles"]]
    p = [math.radians(x) for x in case["previous"]]
    te = 0.1 if case["te"] is None else case["te"]
    point = lambda v: turn(2, a[2], turn(1, a[1], turn(0, a[0], v)))
    # The angular velocity is the sum of the turns of the three angles, each about its own axis, seen from the body.
    back = lambda k, v: v if k == 0 else turn(0, -a[0], v) if k == 1 else turn(0, -a[0], turn(1, -a[1], v))
    d = [(x - y) / te for x, y in zip(a, p)]
    w = [0.0, 0.0, 0.0]
    for k in range(3):
        u = back(k, [float(k == i) for i in range(3)])
        w = [x + d[k] * y for x, y in zip(w, u)]
    slack = (1e-11 * (sum(map(abs, a)) + sum(map(abs, p)) + 1.0) / te + 1e-9 * sum(map(abs, d))) / math.cos(a[1]) ** 2
    return point([0.0, 0.0, -G]), point([B, 0.0, 0.0]), w, 1e-9 * (1.0 + sum(map(abs, a))), slack


def column(m, what):
    try:
        v = [float(m[i, 0]) for i in range(3)]
    except standin.Missing:
        raise
    except Exception as e:
        raise Violation("the %s cannot be read as a column of three: %r" % (what, e))
    if not all(map(math.isfinite, v)):
        raise Violation("the %s is %r" % (what, v))
    return v


def judge(space, case):
    args = list(case["angles"]) + list(case["previous"]) + ([] if case["te"] is None else [case["te"]])
    try:
        got = space["GenerateRawMeasurements"](*args)
    except (standin.Missing, ImportError):
        raise
    except Exception as e:
        raise Violation("the measurements were not produced: %s: %s" % (type(e).__name__, e))
    acc, mag, rate, tol, slack = expected(case)
    if len(got) != 3:
        raise Violation("%d results instead of 3" % len(got))
    for m, want, t, what in ((got[0], acc, tol, "acceleration"), (got[1], mag, 5.0 * tol, "magnetic field"), (got[2], rate, slack, "angular rate")):
        v = column(m, what)
        d = max(abs(x - y) for x, y in zip(v, want))
        if not d <= t:
            raise Violation("the %s is %r, expected %r" % (what, v, want))


def angle(r, pitch):
    lim = 89.9 if pitch else 1e9
    k = r.randrange(8)
    if k == 0:
        x = r.choice([0, 0.0, 90, -90, 180, -180, 45, 30, -60, 120, 270, 360, -360, 720])
    elif k == 1:
        x = float(r.randrange(-180, 181))
    elif k == 2:
        x = r.randrange(-180, 181)
    elif k == 3:
        x = r.choice([-1.0, 1.0]) * 10.0 ** r.uniform(-6, 1)
    elif k == 4:
        x = r.uniform(-3600, 3600)
    elif k == 5 and pitch:
        x = r.choice([-1.0, 1.0]) * r.uniform(80, 89.9)
    else:
        x = r.uniform(-180, 180)
    # The rates of the angles have no meaning where the pitch is a quarter turn.
    if pitch and abs(math.cos(math.radians(x))) < math.cos(math.radians(lim)):
        x = r.uniform(-89.9, 89.9)
    return x


def generate(r):
    a = [angle(r, k == 1) for k in range(3)]
    k = r.randrange(6)
    if k == 0:
        p = list(a)
    elif k == 1:
        p = [x - r.choice([-1.0, 1.0]) * 10.0 ** r.uniform(-6, 0) for x in a]
    elif k == 2:
        p = list(a)
        p[r.randrange(3)] = angle(r, False)
    elif k == 3:
        p = [0.0, 0.0, 0.0]
    else:
        p = [angle(r, False) for _ in range(3)]
    if r.randrange(4) == 0:
        for i in range(3):
            if r.randrange(2):
                a[i] = 0.0
    te = None if r.randrange(8) == 0 else r.choice([0.004, 0.01, 0.1, 1.0, 1, 2]) if r.randrange(2) else 10.0 ** r.uniform(-4, 1)
    return {"angles": a, "previous": p, "te": te}


def plain(case):
    return sum(x % 90 != 0 for x in case["angles"]) >= 2 and case["angles"] != case["previous"]


def fails(space, case):
    try:
        judge(space, case)
    except Violation as e:
        return str(e)
    return None


def shrink(space, case):
    """The simplest failing case reachable by replacing one number by a simpler one."""
    steps = 0
    for _ in range(50):
        better = False
        for key in ("angles", "previous", "te"):
            for i in range(3 if key != "te" else 1):
                x = case[key] if key == "te" else case[key][i]
                if x is None:
                    continue
                for y in ((None, 1.0, 0.1) if key == "te" else (0.0, 90.0, 45.0, 30.0, 10.0, 1.0, float(round(x)), float(round(x, 1)), round(x, 3), abs(x))):
                    if y == x or (x in (0.0, 1.0) and y is not None) or (y is not None and len(repr(y)) > len(repr(x))):
                        continue
                    if key != "te" and (y == 90.0 and i == 1 or abs(y) > abs(x)):
                        continue
                    c = json.loads(json.dumps(case))
                    if key == "te":
                        c["te"] = y
                    else:
                        c[key][i] = y
                    steps += 1
                    if fails(space, c):
                        case, better = c, True
                        break
        if not better:
            break
    return case, steps


def recorded(space):
    """The script run as a program writes the recorded file."""
    here = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="measurements-")
    try:
        os.mkdir(os.path.join(scratch, "build"))
        os.chdir(scratch)
        try:
            space["main"]()
        except (standin.Missing, ImportError):
            raise
        except Exception as e:
            raise Violation("the program stops: %s: %s" % (type(e).__name__, e))
        try:
            new = list(csv.reader(open(os.path.join(scratch, "build", "raw_measurements.csv"))))
        except OSError as e:
            raise Violation("the program writes no build/raw_measurements.csv: %s" % e)
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    if new[:1] != [NAMES]:
        raise Violation("the columns are %r" % (new[:1],))
    old = list(csv.reader(open(RECORD)))
    if len(new) != len(old):
        raise Violation("%d lines are written, %d are recorded in build/raw_measurements.csv" % (len(new), len(old)))
    for n, (x, y) in enumerate(zip(new[1:], old[1:]), 1):
        x, y = [float(v) for v in x], [float(v) for v in y]
        if len(x) != 9 or max(abs(p - q) for p, q in zip(x, y)) > 0.0011:
            raise Violation("sample %d is written as %r, recorded as %r" % (n, x, y))
        if abs(math.hypot(*x[0:3]) - G) > 0.002 or abs(math.hypot(*x[6:9]) - B) > 0.002:
            raise Violation("sample %d has an acceleration of %g and a field of %g" % (n, math.hypot(*x[0:3]), math.hypot(*x[6:9])))


def main():
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    count = max(1, int((2000000 if tier == "thorough" else 120000) * float(os.environ.get("VERIF_SCALE", "1"))))
    start = time.time()
    done = nontrivial = 0
    distinct, samples, message, case = set(), [], None, None
    try:
        space = load()
        if replay:
            case = json.load(open(replay))["case"]
            try:
                recorded(space) if case is None else judge(space, case)
            except Violation as e:
                print("replayed: %s" % e)
                print("VIOLATION property=C47 replay=%s" % replay)
                return 1
            print("replayed: held")
            return 0
        try:
            recorded(space)
        except Violation as e:
            message = str(e)
        r = random.Random("C47-%d" % seed)
        while message is None and done < count:
            case = generate(r)
            done += 1
            if plain(case):
                nontrivial += 1
                if len(distinct) < 400000:
                    distinct.add(repr(case))
                if len(samples) < 6:
                    samples.append(repr(case))
            if fails(space, case):
                case, steps = shrink(space, case)
                message = fails(space, case)
                print("failing case %d (shrunk in %d steps): %s\n  %r" % (done - 1, steps, message, case))
    except (standin.Missing, ImportError) as e:
        print("ERROR generate_raw_measurements.py cannot be run here: it needs %s" % e)
        return 2
    wall = time.time() - start
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    if message is not None:
        if done == 0:
            case = None
            print("failing run of the program: %s" % message)
        path = os.path.join(OUT, "replays", "C47.replay")
        json.dump({"property": "C47", "case": case, "message": message}, open(path, "w"), indent=1)
        print("VIOLATION property=C47 replay=%s" % path)
    json.dump({
        "property": "C47", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": done, "nontrivial": nontrivial, "distinct_nontrivial": len(distinct), "rule": RULE, "samples": samples or ["the program run as it is"]},
        "assumptions": ["pitch at least 0.1 degree from a quarter turn", "numpy is replaced by a stand-in where it is not installed"],
        "wall_s": round(wall, 3), "violations": int(message is not None),
    }, open(os.path.join(OUT, "C47.json"), "w"), indent=1)
    print("C47: %d cases, %d non-trivial (%d distinct), %.2f s, seed %d tier %s: %s" % (done, nontrivial, len(distinct), wall, seed, tier, "held" if message is None else "VIOLATED"))
    return int(message is not None)


if __name__ == "__main__":
    sys.exit(main())
